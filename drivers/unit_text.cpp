#include "util.hpp"
#include <sstream>
#include "utils.hpp"
typedef quickbook::string_view sv;
namespace qd = quickbook::detail;
#define EACH(name, expr)                                                       \
    QV_CMD(name)                                                               \
    {                                                                          \
        for (size_t i = 0; i < in.size(); ++i) {                               \
            qv::exact e(in[i]);                                                \
            sv x = e.view<sv>();                                               \
            out.push_back(expr);                                               \
        }                                                                      \
    }
EACH(encode_string, qd::encode_string(x))
EACH(decode_string, qd::decode_string(x))
EACH(make_identifier, qd::make_identifier(x))
EACH(escape_uri, qd::escape_uri(x))
EACH(partially_escape_uri, qd::partially_escape_uri(x))
QV_CMD(print_string)
{
    for (size_t i = 0; i < in.size(); ++i) {
        qv::exact e(in[i]);
        std::ostringstream s;
        qd::print_string(e.view<sv>(), s);
        std::ostringstream c;
        for (size_t k = 0; k < in[i].size(); ++k)
            qd::print_char(in[i][k], c);
        out.push_back(s.str());
        out.push_back(c.str());
    }
}
