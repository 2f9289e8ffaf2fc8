#include "util.hpp"
#include "boostbook_chunker.hpp"
#include "xml_parse.hpp"
namespace qd = quickbook::detail;
typedef quickbook::string_view sv;
static void text(qd::xml_element* n, std::string& s)
{
    for (; n; n = n->next()) {
        if (n->type_ == qd::xml_element::element_node) {
            s += "<" + n->name_ + ">";
            text(n->children(), s);
            s += "</" + n->name_ + ">";
        }
        else
            s += n->contents_;
    }
}
static void walk(qd::chunk* c, qd::chunk* parent, qv::fields& out)
{
    for (; c; c = c->next()) {
        if (c->parent() != parent) out.push_back("!parent");
        qv::fields f;
        std::string body, title, info;
        text(c->contents_.root(), body);
        text(c->title_.root(), title);
        text(c->info_.root(), info);
        f.push_back(c->inline_ ? "1" : "0");
        f.push_back(c->id_);
        f.push_back(c->path_);
        f.push_back(title);
        f.push_back(info);
        f.push_back(body);
        out.push_back("(" + qv::pack(f));
        walk(c->children(), c, out);
        out.push_back(")");
    }
}
// xml, mode (none|sections N|all)
QV_CMD(chunk)
{
    qv::exact e(in.at(0));
    qd::xml_tree t = qd::xml_parse(e.view<sv>());
    qd::chunk_tree c = qd::chunk_document(t);
    if (in.at(1) == "sections") qd::inline_sections(c.root(), qv::to_num(in.at(2)));
    if (in.at(1) == "all") qd::inline_all(c.root());
    walk(c.root(), 0, out);
    std::string left;
    text(t.root(), left);
    out.push_back("left:" + left);
}
