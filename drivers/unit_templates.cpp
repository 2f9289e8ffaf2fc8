#include "util.hpp"
#include <list>
#include <memory>
#include "quickbook.hpp"
#include "template_stack.hpp"
#include "values.hpp"
#include "files.hpp"
#include "state.hpp"
#include "template_tags.hpp"
using namespace quickbook;
namespace cl = boost::spirit::classic;
static std::string show(template_symbol const* s)
{
    return s ? s->identifier + "=" + s->content.get_encoded() : std::string("-");
}
// ops: [push] [pop] [add id body] [find id] [top id] [parse text] [start body] [addq id body version]
QV_CMD(template_stack)
{
    quickbook::template_stack t;
    std::vector<std::string> none;
    std::list<template_symbol> held;
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "push") t.push();
        else if (n == "pop") t.pop();
        else if (n == "add") {
            bool r = t.add(template_symbol(op[1], none, encoded_value(op[2], template_tags::phrase), &t.top_scope()));
            out.push_back(r ? "1" : "0");
        }
        else if (n == "find") out.push_back(show(t.find(op[1])));
        else if (n == "top") out.push_back(show(t.find_top_scope(op[1])));
        else if (n == "parse") {
            std::string s = op[1];
            parse_iterator first(string_view(s).begin()), last(string_view(s).end());
            cl::parse_info<parse_iterator> r = cl::parse(first, last, t.scope);
            out.push_back(r.hit ? qv::num(r.length) : "no");
        }
        else if (n == "call") {
            // Enter the scope of the visible template: static for files of
            // version 1.5 and later, dynamic before.
            unsigned version = qv::to_num(op[2]);
            template_symbol* s = t.find(op[1]);
            if (!s) {
                out.push_back("none");
                continue;
            }
            file_ptr f(new file(fs::path("t"), "x", version));
            held.push_back(template_symbol(
                s->identifier, none,
                qbk_value(f, f->source().begin(), f->source().end(), template_tags::phrase),
                s->lexical_parent));
            t.push();
            t.start_template(&held.back());
            out.push_back("called");
        }
        else throw std::runtime_error("bad op");
    }
}
