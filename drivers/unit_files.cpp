#include "util.hpp"
#include <vector>
#include "files.hpp"
using namespace quickbook;
typedef quickbook::string_view sv;
static std::string pos_str(file_position const& p)
{
    return qv::num(p.line) + ":" + qv::num(p.column);
}
// path -> content | load_error
QV_CMD(load)
{
    try {
        file_ptr f = load(fs::path(in.at(0)), 105);
        out.push_back("loaded");
        out.push_back(f->source().to_s());
        out.push_back(f->path.generic_string());
        out.push_back(qv::num(f->version()));
        file_ptr g = load(fs::path(in.at(0)), 105);
        out.push_back(g->source().to_s() == f->source().to_s() ? "same" : "different");
    } catch (load_error& e) {
        out.push_back("error");
        out.push_back(e.what());
    }
}
// text, offsets... -> positions
QV_CMD(relative_position)
{
    qv::exact t(in.at(0));
    sv v = t.view<sv>();
    for (size_t i = 1; i < in.size(); ++i)
        out.push_back(pos_str(relative_position(v.begin(), v.begin() + qv::to_num(in[i]))));
}
QV_CMD(position_of)
{
    file_ptr f(new file(fs::path("x"), in.at(0), 105));
    for (size_t i = 1; i < in.size(); ++i)
        out.push_back(pos_str(f->position_of(f->source().begin() + qv::to_num(in[i]))));
}
// source, ops...; every op is packed [name, args...]
// builders are numbered; files[0] is the source.
QV_CMD(mapped)
{
    std::vector<file_ptr> files;
    files.push_back(file_ptr(new file(fs::path("src"), in.at(0), 105)));
    int const nb = 4;
    mapped_file_builder b[nb];
    for (size_t i = 1; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        mapped_file_builder& m = b[qv::to_num(op.at(1)) % nb];
        std::string const& n = op[0];
        std::vector<long long> a;
        if (n != "lit")
            for (size_t k = 2; k < op.size(); ++k)
                a.push_back(qv::to_num(op[k]));
        if (n == "start")
            m.start(files.at(a[0]));
        else if (n == "release") {
            file_ptr f = m.release();
            files.push_back(f);
            out.push_back(f->source().to_s());
        }
        else if (n == "clear")
            m.clear();
        else if (n == "info") {
            out.push_back(qv::num(m.get_pos()) + (m.empty() ? "e" : "n"));
        }
        else if (n == "add") {
            sv s = files.at(a[0])->source();
            m.add(sv(s.data() + a[1], a[2]));
        }
        else if (n == "unindent") {
            sv s = files.at(a[0])->source();
            m.unindent_and_add(sv(s.data() + a[1], a[2]));
        }
        else if (n == "lit") {
            sv s = files.at(qv::to_num(op[2]))->source();
            qv::exact e(op[4]);
            m.add_at_pos(e.view<sv>(), s.data() + qv::to_num(op[3]));
        }
        else if (n == "addb")
            m.add(b[a[0] % nb]);
        else if (n == "addbr")
            m.add(b[a[0] % nb], a[1], a[2]);
        else if (n == "pos") {
            file_ptr f = files.at(a[0]);
            out.push_back(pos_str(f->position_of(f->source().begin() + a[1])));
        }
        else if (n == "meta") {
            file_ptr f = files.at(a[0]);
            out.push_back(f->path.generic_string() + "/" + qv::num(f->version()));
        }
        else
            throw std::runtime_error("bad op");
    }
}
