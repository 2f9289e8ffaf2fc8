// Helpers shared by the adapters.
#ifndef QV_UTIL_HPP
#define QV_UTIL_HPP
#include "driver.hpp"
#include <cstdlib>
#include <cstring>

namespace qv
{
    // A copy of a string in a block of exactly its size, so that a read past
    // either end is caught by the address sanitizer.
    struct exact
    {
        char* p;
        size_t n;
        explicit exact(std::string const& s)
            : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1)))
            , n(s.size())
        {
            std::memcpy(p, s.data(), n);
        }
        ~exact() { std::free(p); }
        template <typename View> View view() const { return View(p, n); }

      private:
        exact(exact const&);
        exact& operator=(exact const&);
    };

    inline fields unpack(std::string const& s)
    {
        fields f;
        size_t pos = 0;
        while (pos + 4 <= s.size()) {
            unsigned k;
            std::memcpy(&k, s.data() + pos, 4);
            pos += 4;
            f.push_back(s.substr(pos, k));
            pos += k;
        }
        return f;
    }

    inline std::string pack(fields const& f)
    {
        std::string r;
        for (size_t i = 0; i < f.size(); ++i) {
            unsigned k = f[i].size();
            r.append(reinterpret_cast<char*>(&k), 4);
            r += f[i];
        }
        return r;
    }
}
#endif
