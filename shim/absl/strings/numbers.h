#ifndef VERIF_ABSL_NUMBERS_H_
#define VERIF_ABSL_NUMBERS_H_
#include <charconv>
#include <string>
#include <string_view>
#include "absl/strings/ascii.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename I>
  requires std::is_integral_v<I>
[[nodiscard]] bool SimpleAtoi(std::string_view s, I *out) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  if (!s.empty() && s.front() == '+') s.remove_prefix(1);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return !s.empty() && r.ec == std::errc{} && r.ptr == s.data() + s.size();
}
template <typename I>
[[nodiscard]] bool SimpleHexAtoi(std::string_view s, I *out) {
  s = StripAsciiWhitespace(s);
  if (s.starts_with("0x") || s.starts_with("0X")) s.remove_prefix(2);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out, 16);
  return !s.empty() && r.ec == std::errc{} && r.ptr == s.data() + s.size();
}
[[nodiscard]] inline bool SimpleAtod(std::string_view s, double *out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s.front() == '+') s.remove_prefix(1);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return !s.empty() && r.ec == std::errc{} && r.ptr == s.data() + s.size();
}
[[nodiscard]] inline bool SimpleAtof(std::string_view s, float *out) {
  double d;
  if (!SimpleAtod(s, &d)) return false;
  *out = static_cast<float>(d);
  return true;
}
[[nodiscard]] inline bool SimpleAtob(std::string_view s, bool *out) {
  std::string low;
  for (char c : s) low += ascii_tolower(c);
  for (std::string_view t : {"true", "t", "yes", "y", "1"}) {
    if (low == t) return *out = true;
  }
  for (std::string_view f : {"false", "f", "no", "n", "0"}) {
    if (low == f) { *out = false; return true; }
  }
  return false;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
