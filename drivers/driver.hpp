// Common protocol of the test driver: length prefixed frames on stdin/stdout.
#ifndef QV_DRIVER_HPP
#define QV_DRIVER_HPP
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace qv
{
    typedef std::vector<std::string> fields;
    typedef fields (*handler)(fields const&);

    std::map<std::string, handler>& handlers();

    struct register_handler
    {
        register_handler(char const* name, handler h) { handlers()[name] = h; }
    };

    inline std::string num(long long n) { return std::to_string(n); }
    inline long long to_num(std::string const& s) { return std::stoll(s); }
}

// Defines a unit command: the body receives 'in' (the arguments) and fills
// 'out' with the results.
#define QV_CMD(name)                                                           \
    static void qv_body_##name(qv::fields const& in, qv::fields& out);         \
    static qv::fields qv_cmd_##name(qv::fields const& in)                      \
    {                                                                          \
        qv::fields out;                                                        \
        qv_body_##name(in, out);                                               \
        return out;                                                            \
    }                                                                          \
    static qv::register_handler qv_reg_##name(#name, &qv_cmd_##name);          \
    static void qv_body_##name(qv::fields const& in, qv::fields& out)
#endif
