#include "util.hpp"
#include <boost/filesystem/operations.hpp>
#include "path.hpp"
namespace qd = quickbook::detail;
namespace fs = boost::filesystem;
QV_CMD(path_difference)
{
    out.push_back(quickbook::path_difference(
                      fs::path(in.at(0)), fs::path(in.at(1)), in.at(2) == "1")
                      .generic_string());
}
QV_CMD(file_path_to_url)
{
    for (size_t i = 0; i < in.size(); ++i)
        out.push_back(quickbook::file_path_to_url(fs::path(in[i])));
}
QV_CMD(dir_path_to_url)
{
    for (size_t i = 0; i < in.size(); ++i)
        out.push_back(quickbook::dir_path_to_url(fs::path(in[i])));
}
static std::string show(qd::path_or_url const& x)
{
    if (!x) return "empty";
    if (x.is_path() == x.is_url()) return "inconsistent";
    return x.is_path() ? "path:" + x.get_path().generic_string()
                       : "url:" + x.get_url();
}
// text, appended text -> parsed, appended
QV_CMD(path_or_url)
{
    qd::path_or_url x(in.at(0));
    out.push_back(show(x));
    qd::path_or_url y(x);
    out.push_back(show(y));
    qd::path_or_url z;
    out.push_back(show(z));
    z = in.at(0);
    out.push_back(show(z));
    if (x) {
        qv::exact e(in.at(1));
        out.push_back(show(x / e.view<quickbook::string_view>()));
    }
    out.push_back(show(x));
    qd::path_or_url w = qd::path_or_url::url("http://w/");
    w.swap(y);
    out.push_back(show(y));
    out.push_back(show(w));
}
QV_CMD(generic_paths)
{
    fs::path p = qd::generic_to_path(in.at(0));
    out.push_back(qd::path_to_generic(p));
    out.push_back(qd::command_line_to_utf8(in.at(0)));
    out.push_back(qd::command_line_to_path(in.at(0)).generic_string());
}
