#include "util.hpp"
#include <memory>
#include "tree.hpp"
#include "xml_parse.hpp"
#include "html_printer.hpp"
namespace qd = quickbook::detail;
typedef quickbook::string_view sv;
static void dump(qd::xml_element* n, qv::fields& out)
{
    // pre-order: kind, name/contents ... children ... ")"
    for (; n; n = n->next()) {
        if (n->next() && n->next()->prev() != n) out.push_back("!prev");
        if (n->next() && n->next()->parent() != n->parent()) out.push_back("!parent");
        if (n->children() && n->children()->parent() != n) out.push_back("!child-parent");
        if (n->children() && n->children()->prev()) out.push_back("!first-prev");
        switch (n->type_) {
        case qd::xml_element::element_node:
            out.push_back("(" + n->name_);
            dump(n->children(), out);
            out.push_back(")");
            break;
        case qd::xml_element::element_text: out.push_back("T" + n->contents_); break;
        default: out.push_back("H" + n->contents_); break;
        }
    }
}
// text, attribute names to query (packed) -> "ok" dump.. | "error" message offset
static void dump_attr(qd::xml_element* n, qv::fields const& names, qv::fields& out)
{
    for (; n; n = n->next()) {
        if (n->type_ == qd::xml_element::element_node) {
            out.push_back("(" + n->name_);
            for (size_t i = 0; i < names.size(); ++i)
                if (n->has_attribute(names[i])) out.push_back("@" + names[i] + "=" + n->get_attribute(names[i]).to_s());
            dump_attr(n->children(), names, out);
            out.push_back(")");
        }
        else
            out.push_back((n->type_ == qd::xml_element::element_text ? "T" : "H") + n->contents_);
    }
}
QV_CMD(xml_parse)
{
    qv::exact e(in.at(0));
    sv v = e.view<sv>();
    qv::fields names = qv::unpack(in.at(1));
    try {
        qd::xml_tree t = qd::xml_parse(v);
        qv::fields chk;
        dump(t.root(), chk);
        for (size_t i = 0; i < chk.size(); ++i)
            if (chk[i][0] == '!') {
                out.push_back("broken");
                out.push_back(chk[i]);
                return;
            }
        out.push_back("ok");
        dump_attr(t.root(), names, out);
    } catch (qd::xml_parse_error& x) {
        out.push_back("error");
        out.push_back(x.message);
        out.push_back(qv::num(x.pos - v.begin()));
    }
}
namespace
{
    int tree_live;
    struct tn : qd::tree_node<tn>
    {
        std::string name;
        explicit tn(std::string const& n) : name(n) { ++tree_live; }
        ~tn() { --tree_live; }
    };
    typedef qd::tree<tn> ttree;
    typedef qd::tree_builder<tn> tbuilder;
    std::string tshow(tn* n, tn* parent)
    {
        std::string r;
        tn* prev = 0;
        for (; n; prev = n, n = n->next()) {
            if (n->prev() != prev) r += "!prev";
            if (n->parent() != parent) r += "!parent";
            r += n->name;
            if (n->children()) r += "(" + tshow(n->children(), n) + ")";
            if (n->next()) r += " ";
        }
        return r;
    }
    tn* find(tn* n, std::string const& name)
    {
        for (; n; n = n->next()) {
            if (n->name == name) return n;
            if (tn* r = find(n->children(), name)) return r;
        }
        return 0;
    }
}
// ops on trees 0..2 and builders 0..1
//  [b.add b name] [b.start b] [b.end b] [b.release b t] [b.extract b name t]
//  [new t name] [extract t name u] [before t name u] [after ..] [first ..] [last ..] [move t u] [show t] [bshow b]
QV_CMD(tree)
{
    tree_live = 0;
    {
        ttree t[3];
        tbuilder b[2];
        for (size_t i = 0; i < in.size(); ++i) {
            qv::fields op = qv::unpack(in[i]);
            std::string const& n = op[0];
            int x = qv::to_num(op[1]);
            if (n == "b.add") b[x].add_element(new tn(op[2]));
            else if (n == "b.start") b[x].start_children();
            else if (n == "b.end") b[x].end_children();
            else if (n == "b.release") t[qv::to_num(op[2])] = b[x].release();
            else if (n == "b.extract") t[qv::to_num(op[3])] = b[x].extract(find(b[x].root(), op[2]));
            else if (n == "b.cur")
                out.push_back(
                    (b[x].parent() ? b[x].parent()->name : "-") + "/" +
                    (b[x].current() ? b[x].current()->name : "-"));
            else if (n == "b.show") out.push_back(tshow(b[x].root(), 0));
            else if (n == "new") t[x] = ttree(new tn(op[2]));
            else if (n == "extract") t[qv::to_num(op[3])] = t[x].extract(find(t[x].root(), op[2]));
            else if (n == "before") find(t[x].root(), op[2])->add_before(std::move(t[qv::to_num(op[3])]));
            else if (n == "after") find(t[x].root(), op[2])->add_after(std::move(t[qv::to_num(op[3])]));
            else if (n == "first") find(t[x].root(), op[2])->add_first_child(std::move(t[qv::to_num(op[3])]));
            else if (n == "last") find(t[x].root(), op[2])->add_last_child(std::move(t[qv::to_num(op[3])]));
            else if (n == "move") {
                ttree tmp(std::move(t[qv::to_num(op[2])]));
                t[x] = std::move(tmp);
            }
            else if (n == "drop") t[x] = ttree();
            else if (n == "show") out.push_back(tshow(t[x].root(), 0));
            else if (n == "live") out.push_back(qv::num(tree_live));
            else throw std::runtime_error("bad op");
        }
    }
    out.push_back(qv::num(tree_live));
}
// ops on one element: [set name value] [get name] [has name] [child name] [add name]
QV_CMD(xml_element)
{
    qd::xml_tree t(qd::xml_element::node("root"));
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "set") out.push_back(t.root()->set_attribute(op[1], op[2]).to_s());
        else if (n == "get") out.push_back(t.root()->get_attribute(op[1]).to_s());
        else if (n == "has") out.push_back(t.root()->has_attribute(op[1]) ? "1" : "0");
        else if (n == "add") {
            qd::xml_element* e = op[2] == "text" ? qd::xml_element::text_node(op[1]) : qd::xml_element::node(op[1]);
            e->set_attribute("n", op[3]);
            t.root()->add_last_child(qd::xml_tree(e));
        }
        else if (n == "child") {
            qd::xml_element* e = t.root()->get_child(op[1]);
            out.push_back(e ? e->get_attribute("n").to_s() : "-");
        }
        else throw std::runtime_error("bad op");
    }
}
// ops [open n] [close n] [start n] [attr n v] [end] [self]
QV_CMD(html_printer)
{
    qd::html_printer p;
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "open") qd::open_tag(p, op[1]);
        else if (n == "close") qd::close_tag(p, op[1]);
        else if (n == "start") qd::tag_start(p, op[1]);
        else if (n == "attr") qd::tag_attribute(p, op[1], op[2]);
        else if (n == "end") qd::tag_end(p);
        else if (n == "self") qd::tag_end_self_close(p);
        else throw std::runtime_error("bad op");
    }
    out.push_back(p.html);
}
