#include "util.hpp"
#include <boost/core/invoke_swap.hpp>
#include <boost/intrusive_ptr.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/spirit/include/classic_core.hpp>
#include <boost/spirit/include/classic_symbols.hpp>
#include "symbols.hpp"
namespace cl = boost::spirit::classic;
typedef quickbook::string_symbols table;
// ops: [add t name value] [copy t u] [assign t u] [parse t text] [find t text] [edit t name value]
QV_CMD(symbols)
{
    int const nt = 4;
    std::vector<table> t(nt);
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        int x = qv::to_num(op[1]);
        if (n == "add") {
            qv::exact e(op[2]);
            t[x].add((char const*)e.p, (char const*)e.p + e.n, op[3]);
        }
        else if (n == "copy") {
            table u(t[qv::to_num(op[2])]);
            t[x] = u;
        }
        else if (n == "assign") t[x] = t[qv::to_num(op[2])];
        else if (n == "clear") t[x] = table();
        else if (n == "parse") {
            qv::exact e(op[2]);
            char const* first = e.p;
            std::string got = "-";
            struct set
            {
                std::string* p;
                void operator()(std::string const& s) const { *p = "+" + s; }
            } s = {&got};
            cl::parse_info<char const*> r =
                cl::parse(first, first + e.n, t[x][s]);
            out.push_back(r.hit ? qv::num(r.length) : "no");
            out.push_back(got);
        }
        else if (n == "find") {
            std::string* p = cl::find(t[x], op[2].c_str());
            out.push_back(p ? "+" + *p : "-");
        }
        else if (n == "edit") {
            std::string* p = cl::find(t[x], op[2].c_str());
            out.push_back(p ? "+" : "-");
        }
        else throw std::runtime_error("bad op");
    }
}
