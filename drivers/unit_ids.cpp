#include "util.hpp"
#include "document_state.hpp"
#include "state.hpp"
#include "values.hpp"
using namespace quickbook;
static file_ptr idf;
// version-tagged operation history over document_state; text is composed by
// the caller from the returned placeholders
QV_CMD(ids)
{
    document_state d;
    qbk_version_n = 107;
    std::string text;
    file_ptr f(new file(fs::path("i"), in.at(0), 107));
    source_mode_info sm;
    for (size_t i = 1; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "start") {
            value title = op[4].empty() ? value() : encoded_qbk_value(f, f->source().begin(), f->source().begin(), op[4]);
            if (op[5] == "1")
                text += "<d id=\"" + d.start_file_with_docinfo(qv::to_num(op[1]), op[2], op[3], title) + "\">";
            else
                d.start_file(qv::to_num(op[1]), op[2], op[3], title);
        }
        else if (n == "endfile") d.end_file();
        else if (n == "id")
            text += "<x id=\"" + d.add_id(op[1], id_category(int(qv::to_num(op[2])))) + "\"/>";
        else if (n == "anchor")
            text += "<a id=\"" + d.add_anchor(op[1], id_category(int(qv::to_num(op[2])))) + "\"/>";
        else if (n == "old")
            text += "<o id=\"" + d.old_style_id(op[1], id_category(int(qv::to_num(op[2])))) + "\"/>";
        else if (n == "section")
            text += "<s id=\"" + d.begin_section(value(), op[1], id_category(int(qv::to_num(op[2]))), sm) + "\">";
        else if (n == "endsect") {
            d.end_section();
            text += "</s>";
        }
        else if (n == "raw") text += op[1];
        else if (n == "level") out.push_back(qv::num(d.section_level()));
        else if (n == "compat") out.push_back(qv::num(d.compatibility_version()));
        else throw std::runtime_error("bad op");
    }
    out.push_back(d.replace_placeholders(text));
    out.push_back(d.replace_placeholders_with_unresolved_ids(text));
}
