#include "util.hpp"
#include "utils.hpp"
typedef quickbook::string_view sv;
QV_CMD(linkify)
{
    qv::exact a(in.at(0)), b(in.at(1));
    out.push_back(quickbook::detail::linkify(a.view<sv>(), b.view<sv>()));
}
