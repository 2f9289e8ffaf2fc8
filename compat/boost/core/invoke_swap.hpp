// Stand-in for boost/core/invoke_swap.hpp (Boost 1.84), which the installed
// Boost 1.83 lacks. Same documented contract: unqualified swap with std::swap
// in scope. Used only by the harness builds in /verif.
#ifndef VERIF_COMPAT_INVOKE_SWAP_HPP
#define VERIF_COMPAT_INVOKE_SWAP_HPP
#include <utility>
namespace verif_invoke_swap_impl {
using std::swap;
template <class T> inline void call(T& a, T& b) { swap(a, b); }
}
namespace boost {
namespace core {
template <class T> inline void invoke_swap(T& a, T& b)
{
    ::verif_invoke_swap_impl::call(a, b);
}
}
}
#endif
