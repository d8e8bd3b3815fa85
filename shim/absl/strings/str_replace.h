#ifndef VERIF_ABSL_STR_REPLACE_H_
#define VERIF_ABSL_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// As documented: all occurrences, left to right; at each position the longest
// matching key wins; replaced text is not considered again.
using VerifSubs =
  std::initializer_list<std::pair<std::string_view, std::string_view>>;
inline std::string VerifReplace(std::string_view s, VerifSubs subs, int *count) {
  std::string out;
  for (size_t i = 0; i < s.size();) {
    const std::pair<std::string_view, std::string_view> *best = nullptr;
    for (const auto &p : subs) {
      if (p.first.empty() || !s.substr(i).starts_with(p.first)) continue;
      if (!best || p.first.size() > best->first.size()) best = &p;
    }
    if (best) {
      out.append(best->second);
      i += best->first.size();
      ++*count;
    } else {
      out.push_back(s[i++]);
    }
  }
  return out;
}
inline std::string StrReplaceAll(std::string_view s, VerifSubs subs) {
  int count = 0;
  return VerifReplace(s, subs, &count);
}
// Returns the number of substitutions made.
inline int StrReplaceAll(VerifSubs subs, std::string *target) {
  int count = 0;
  *target = VerifReplace(*target, subs, &count);
  return count;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
