#include "util.hpp"
#include "glob.hpp"
typedef quickbook::string_view sv;
// pattern, names... -> "invalid" | is_glob flag, then 0/1 per name
QV_CMD(glob)
{
    qv::exact p(in.at(0));
    bool is_glob;
    try {
        is_glob = quickbook::check_glob(p.view<sv>());
    } catch (quickbook::glob_error& e) {
        out.push_back("invalid");
        out.push_back(e.what());
        // glob may throw or answer, but stay inside the pattern.
        for (size_t i = 1; i < in.size(); ++i) {
            qv::exact n(in[i]);
            try {
                quickbook::glob(p.view<sv>(), n.view<sv>());
            } catch (quickbook::glob_error&) {
            }
        }
        return;
    }
    out.push_back(is_glob ? "1" : "0");
    for (size_t i = 1; i < in.size(); ++i) {
        qv::exact n(in[i]);
        out.push_back(quickbook::glob(p.view<sv>(), n.view<sv>()) ? "1" : "0");
    }
}
QV_CMD(find_glob_char)
{
    qv::exact p(in.at(0));
    std::size_t r = quickbook::find_glob_char(p.view<sv>(), qv::to_num(in.at(1)));
    out.push_back(r == sv::npos ? "-1" : qv::num(r));
}
QV_CMD(glob_unescape)
{
    for (size_t i = 0; i < in.size(); ++i) {
        qv::exact p(in[i]);
        out.push_back(quickbook::glob_unescape(p.view<sv>()));
    }
}
