#ifndef VERIF_ABSL_MATCH_H_
#define VERIF_ABSL_MATCH_H_
#include <string_view>
#include "absl/base/config.h"
#include "absl/strings/ascii.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
inline bool StrContains(std::string_view h, std::string_view n) {
  return h.find(n) != std::string_view::npos;
}
inline bool StrContains(std::string_view h, char n) {
  return h.find(n) != std::string_view::npos;
}
inline bool StartsWith(std::string_view t, std::string_view p) {
  return t.starts_with(p);
}
inline bool EndsWith(std::string_view t, std::string_view p) {
  return t.ends_with(p);
}
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (absl::ascii_tolower(a[i]) != absl::ascii_tolower(b[i])) return false;
  }
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) {
  return t.size() >= p.size() &&
         EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
