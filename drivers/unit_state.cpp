#include "util.hpp"
#include <memory>
#include <boost/bind.hpp>
#include "collector.hpp"
#include "cleanup.hpp"
QV_CMD(collector)
{
    quickbook::string_stream base;
    std::unique_ptr<quickbook::collector> c;
    if (in.at(0) == "external") c.reset(new quickbook::collector(base));
    else c.reset(new quickbook::collector());
    std::string reg;
    for (size_t i = 1; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "push") c->push();
        else if (n == "pop") c->pop();
        else if (n == "str") *c << op[1];
        else if (n == "cstr") *c << op[1].c_str();
        else if (n == "get") c->get() << op[1];
        else if (n == "num") *c << int(qv::to_num(op[1]));
        else if (n == "char") *c << op[1].at(0);
        else if (n == "append") c->append(op[1]);
        else if (n == "clear") c->clear();
        else if (n == "setreg") reg = op[1];
        else if (n == "swap") c->swap(reg);
        else if (n == "reg") out.push_back(reg);
        else if (n == "show") out.push_back(c->str());
        else if (n == "base") out.push_back(base.str());
        else throw std::runtime_error("bad op");
    }
}
namespace
{
    std::vector<int>* log_;
    int live;
    template <int N> struct item
    {
        int id;
        char pad[N];
        explicit item(int i) : id(i) { ++live; }
        ~item()
        {
            --live;
            log_->push_back(id);
        }
    };
    struct vbase { virtual ~vbase() {} };
    struct vitem : vbase
    {
        item<3> i;
        explicit vitem(int k) : i(k) {}
    };
    int next_id;
    void more(quickbook::cleanup& c, int depth, std::vector<std::string> const& ops, size_t& pos);
}
// ops: "1".."4" add an object of that kind, "(" starts a nested cleanup, ")" ends it
namespace
{
    void more(quickbook::cleanup& c, int depth, std::vector<std::string> const& ops, size_t& pos)
    {
        for (; pos < ops.size(); ++pos) {
            std::string const& o = ops[pos];
            if (o == "1") {
                item<1>* p = new item<1>(next_id++);
                item<1>& r = c.add(p);
                if (&r != p) log_->push_back(-1);
            }
            else if (o == "2") c.add(new item<40>(next_id++));
            else if (o == "3") c.add(new vitem(next_id++));
            else if (o == "4") c.add(static_cast<vbase*>(new vitem(next_id++)));
            else if (o == "(") {
                ++pos;
                log_->push_back(-2);
                {
                    quickbook::cleanup inner;
                    more(inner, depth + 1, ops, pos);
                }
                log_->push_back(-3);
            }
            else if (o == ")" && depth) return;
        }
    }
}
QV_CMD(cleanup)
{
    std::vector<int> log;
    log_ = &log;
    live = 0;
    next_id = 1;
    {
        quickbook::cleanup c;
        size_t pos = 0;
        more(c, 0, in, pos);
    }
    std::string s;
    for (size_t i = 0; i < log.size(); ++i)
        s += qv::num(log[i]) + " ";
    out.push_back(s);
    out.push_back(qv::num(live));
}
