#ifndef VERIF_ABSL_STR_JOIN_H_
#define VERIF_ABSL_STR_JOIN_H_
#include <initializer_list>
#include <iterator>
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename It, typename F>
  requires std::input_iterator<It>
std::string StrJoin(It begin, It end, std::string_view sep, F &&fmt) {
  std::string out;
  bool first = true;
  for (; begin != end; ++begin) {
    if (!first) out.append(sep);
    first = false;
    fmt(&out, *begin);
  }
  return out;
}
template <typename R, typename F>
std::string StrJoin(const R &r, std::string_view sep, F &&fmt) {
  return StrJoin(std::begin(r), std::end(r), sep, fmt);
}
template <typename R>
std::string StrJoin(const R &r, std::string_view sep) {
  return StrJoin(std::begin(r), std::end(r), sep,
                 [](std::string *o, const auto &v) { StrAppend(o, v); });
}
template <typename T>
std::string StrJoin(std::initializer_list<T> r, std::string_view sep) {
  return StrJoin(r.begin(), r.end(), sep,
                 [](std::string *o, const auto &v) { StrAppend(o, v); });
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
