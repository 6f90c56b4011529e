// fmt 9 (what third_party has) keeps its core in core.h and has no println; the rest of the tree is written for fmt 11.
#pragma once
#include <fmt/core.h>
#include <fmt/format.h>
#if FMT_VERSION < 100000
namespace fmt {
template<class... A>
inline void println(format_string<A...> f, A&&... a) {
  print("{}\n", format(f, std::forward<A>(a)...));
}
}  // namespace fmt
#endif
