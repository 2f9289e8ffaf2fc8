#include "util.hpp"
#include <sstream>
#include <boost/filesystem/fstream.hpp>
#include "dependency_tracker.hpp"
namespace fs = boost::filesystem;
// ops [dep p] [glob p] [match p] [write flags] [file p flags]
QV_CMD(deps)
{
    quickbook::dependency_tracker d;
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        std::string const& n = op[0];
        if (n == "dep") out.push_back(d.add_dependency(fs::path(op[1])) ? "1" : "0");
        else if (n == "glob") d.add_glob(fs::path(op[1]));
        else if (n == "match") d.add_glob_match(fs::path(op[1]));
        else if (n == "write") {
            std::ostringstream s;
            d.write_dependencies(s, quickbook::dependency_tracker::flags(qv::to_num(op[1])));
            out.push_back(s.str());
        }
        else throw std::runtime_error("bad op");
    }
}
