// Minimal stand-in for LLNL/camp (its submodule is empty in this sandbox).
// Only what Umpire's host build uses.  Not derived from camp's sources.
#ifndef VERIF_CAMP_CAMP_HPP
#define VERIF_CAMP_CAMP_HPP
#include <cstddef>
#include <type_traits>
#include <utility>
#define CAMP_EXPAND(...) static_cast<void>(::std::initializer_list<int>{((void)(__VA_ARGS__), 0)..., 0})
#include <initializer_list>
#define CAMP_HOST_DEVICE
#define CAMP_DEVICE
#define CAMP_SUPPRESS_HD_WARN
namespace camp {
using idx_t = std::ptrdiff_t;
template <typename... Ts>
inline void sink(const Ts&...) {}
} // namespace camp
#endif
