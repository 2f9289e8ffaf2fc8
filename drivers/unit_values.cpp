#include "util.hpp"
#include <memory>
#include "values.hpp"
using namespace quickbook;
static std::string show(detail::value_base const& v)
{
    std::string t = qv::num(v.get_tag());
    if (v.is_list()) {
        std::string r = "L" + t + "[";
        for (detail::value_base::iterator i = v.begin(), e = v.end(); i != e; ++i) {
            if (r[r.size() - 1] != '[') r += ",";
            r += show(*i);
        }
        r += "]";
        if (v.empty() != (r[r.size() - 2] == '[')) r += "!empty";
        if (!v.check()) r += "!check";
        return r;
    }
    if (!v.check()) return "E" + t + (v.empty() ? "" : "!empty");
    std::string r;
    bool enc = v.is_encoded();
    bool has_q = true;
    std::string q;
    try {
        q = v.get_quickbook().to_s();
    } catch (std::logic_error&) {
        has_q = false;
    }
    if (enc) {
        try {
            r = "I" + t + ":" + qv::num(v.get_int()) + ":" + v.get_encoded();
            return r + (v.empty() ? "!empty" : "");
        } catch (std::logic_error&) {
        }
        r = "S" + t + ":" + v.get_encoded();
        if (has_q) r += "|Q:" + q + "@" + qv::num(v.get_position() - v.get_file()->source().begin());
        if (v.empty() != v.get_encoded().empty()) r += "!empty";
    }
    else {
        r = "Q" + t + ":" + q + "@" + qv::num(v.get_position() - v.get_file()->source().begin());
        if (v.empty() != q.empty()) r += "!empty";
    }
    return r;
}
// source text, ops...  (packed [name, args...])
QV_CMD(values)
{
    file_ptr f(new file(fs::path("v"), in.at(0), 105));
    string_iterator src = f->source().begin();
    int const ns = 6, nb = 3, nc = 3;
    value slots[ns];
    std::unique_ptr<value_builder> b[nb];
    for (int i = 0; i < nb; ++i)
        b[i].reset(new value_builder());
    std::unique_ptr<value_consumer> c[nc];
    for (size_t i = 1; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        std::vector<int> a;
        for (size_t k = 1; k < op.size(); ++k) {
            if (n == "S" && k == 3) continue;
            if (n == "SQ" && k == 5) continue;
            a.push_back(qv::to_num(op[k]));
        }
        try {
            if (n == "E") slots[a[0]] = empty_value(a[1]);
            else if (n == "nil") slots[a[0]] = value();
            else if (n == "I") slots[a[0]] = int_value(a[2], a[1]);
            else if (n == "S") slots[a[0]] = encoded_value(op[3], a[1]);
            else if (n == "Q") slots[a[0]] = qbk_value(f, src + a[2], src + a[3], a[1]);
            else if (n == "SQ") slots[a[0]] = encoded_qbk_value(f, src + a[2], src + a[3], op[5], a[1]);
            else if (n == "copy") slots[a[0]] = slots[a[1]];
            else if (n == "swap") slots[a[0]].swap(slots[a[1]]);
            else if (n == "show") out.push_back(show(slots[a[0]]));
            else if (n == "eq") out.push_back(slots[a[0]] == slots[a[1]] ? "1" : "0");
            else if (n == "insert") b[a[0]]->insert(slots[a[1]]);
            else if (n == "extend") b[a[0]]->extend(slots[a[1]]);
            else if (n == "start") b[a[0]]->start_list(a[1]);
            else if (n == "start0") b[a[0]]->start_list();
            else if (n == "finish") b[a[0]]->finish_list();
            else if (n == "clear") b[a[0]]->clear_list();
            else if (n == "sort") b[a[0]]->sort_list();
            else if (n == "save") b[a[0]]->save();
            else if (n == "restore") b[a[0]]->restore();
            else if (n == "bswap") b[a[0]]->swap(*b[a[1]]);
            else if (n == "empty") out.push_back(b[a[0]]->empty() ? "1" : "0");
            else if (n == "release") slots[a[1]] = b[a[0]]->release();
            else if (n == "reset") b[a[0]].reset(new value_builder());
            else if (n == "nth") {
                value::iterator it = slots[a[1]].begin(), e = slots[a[1]].end();
                for (int k = 0; k < a[2] && it != e; ++k)
                    ++it;
                if (it != e) slots[a[0]] = *it;
                else slots[a[0]] = value();
            }
            else if (n == "insertnth") {
                value::iterator it = slots[a[1]].begin(), e = slots[a[1]].end();
                for (int k = 0; k < a[2] && it != e; ++k)
                    ++it;
                if (it != e) b[a[0]]->insert(*it);
            }
            else if (n == "consumer") c[a[0]].reset(new value_consumer(slots[a[1]]));
            else if (n == "ccopy") { if (c[a[1]]) c[a[0]].reset(new value_consumer(*c[a[1]])); }
            else if (n == "consume") out.push_back(show(c[a[0]]->consume()));
            else if (n == "consumet") out.push_back(show(c[a[0]]->consume(a[1])));
            else if (n == "opt") { value v = c[a[0]]->optional_consume(); out.push_back(show(v)); }
            else if (n == "optt") { value v = c[a[0]]->optional_consume(a[1]); out.push_back(show(v)); }
            else if (n == "check") out.push_back(c[a[0]]->check() ? "1" : "0");
            else if (n == "checkt") out.push_back(c[a[0]]->check(a[1]) ? "1" : "0");
            else if (n == "cfinish") { c[a[0]]->finish(); out.push_back("finished"); }
            else if (n == "rest") {
                std::string r = "rest";
                for (value_consumer::iterator it = c[a[0]]->begin(), e = c[a[0]]->end(); it != e; ++it)
                    r += ";" + show(*it);
                out.push_back(r);
            }
            else out.push_back("bad op " + n);
        } catch (value_error& e) {
            out.push_back("value_error");
        } catch (std::logic_error& e) {
            out.push_back("logic_error");
        }
    }
}
