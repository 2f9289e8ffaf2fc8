#include "util.hpp"
#include "post_process.hpp"
// text, indent, linewidth, html -> "ok" text | "failed" message
QV_CMD(post_process)
{
    try {
        std::string r = quickbook::post_process(
            in.at(0), qv::to_num(in.at(1)), qv::to_num(in.at(2)), in.at(3) == "1");
        out.push_back("ok");
        out.push_back(r);
    } catch (quickbook::post_process_failure& e) {
        out.push_back("failed");
        out.push_back(e.what());
    }
}
