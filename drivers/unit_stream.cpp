#include "util.hpp"
#include <sstream>
#include "stream.hpp"
namespace qd = quickbook::detail;
QV_CMD(ostream)
{
    std::ostringstream s;
    qd::ostream o(s);
    for (size_t i = 0; i < in.size(); ++i) {
        qv::fields op = qv::unpack(in[i]);
        if (op[0] == "s") o << op[1];
        else if (op[0] == "v") o << quickbook::string_view(op[1]);
        else if (op[0] == "i") o << int(qv::to_num(op[1]));
        else if (op[0] == "u") o << (unsigned long)(qv::to_num(op[1]));
        else if (op[0] == "c") o << op[1].at(0);
        else if (op[0] == "p") o << boost::filesystem::path(op[1]);
    }
    out.push_back(s.str());
}
