#include "util.hpp"
#include <iostream>
#include <sstream>
#include <boost/filesystem/path.hpp>
#include "bb2html.hpp"
namespace qd = quickbook::detail;
// A program of its own for forked runs: see driver.cpp "forked".
// boostbook, chunked, home path, boost root, css, graphics, pretty
QV_CMD(bb2html)
{
    qd::html_options o;
    o.chunked_output = in.at(1) == "1";
    o.home_path = boost::filesystem::path(in.at(2));
    if (!in.at(3).empty()) o.boost_root_path = qd::path_or_url(in.at(3));
    if (!in.at(4).empty()) o.css_path = qd::path_or_url(in.at(4));
    if (!in.at(5).empty()) o.graphics_path = qd::path_or_url(in.at(5));
    o.pretty_print = in.at(6) == "1";
    qv::exact e(in.at(0));
    int r = qd::boostbook_to_html(e.view<quickbook::string_view>(), o);
    out.push_back(qv::num(r));
}
