#ifndef VERIF_ABSL_STR_SPLIT_H_
#define VERIF_ABSL_STR_SPLIT_H_
#include <algorithm>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "absl/base/config.h"
#include "absl/strings/strip.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
struct ByString {
  explicit ByString(std::string_view s) : d(s) {}
  std::string d;
  std::pair<size_t, size_t> Find(std::string_view s, size_t from) const {
    if (d.empty()) return {from + 1 < s.size() ? from + 1 : s.npos, 0};
    return {s.find(d, from), d.size()};
  }
};
struct ByChar {
  explicit ByChar(char c) : d(c) {}
  char d;
  std::pair<size_t, size_t> Find(std::string_view s, size_t from) const {
    return {s.find(d, from), 1};
  }
};
struct ByAnyChar {
  explicit ByAnyChar(std::string_view s) : d(s) {}
  std::string d;
  std::pair<size_t, size_t> Find(std::string_view s, size_t from) const {
    return {s.find_first_of(d, from), 1};
  }
};
template <typename D>
struct VerifMaxSplits {
  D d;
  int limit;
};
inline VerifMaxSplits<ByChar> MaxSplits(char c, int n) {
  return {ByChar(c), n};
}
inline VerifMaxSplits<ByString> MaxSplits(std::string_view s, int n) {
  return {ByString(s), n};
}
struct AllowEmpty {
  bool operator()(std::string_view) const { return true; }
};
struct SkipEmpty {
  bool operator()(std::string_view s) const { return !s.empty(); }
};
struct SkipWhitespace {
  bool operator()(std::string_view s) const {
    return std::any_of(s.begin(), s.end(),
                       [](char c) { return !absl::ascii_isspace(c); });
  }
};
class VerifSplitResult {
 public:
  explicit VerifSplitResult(std::vector<std::string_view> v)
      : v_(std::move(v)) {}
  template <typename A, typename B>
  operator std::pair<A, B>() const {  // NOLINT
    return {A(v_.size() > 0 ? v_[0] : std::string_view()),
            B(v_.size() > 1 ? v_[1] : std::string_view())};
  }
  template <typename C>
    requires requires(C c) { typename C::value_type; c.begin(); } &&
             (!std::is_same_v<C, std::string_view>)
  operator C() const {  // NOLINT
    C out;
    for (std::string_view s : v_) {
      out.insert(out.end(), typename C::value_type(s));
    }
    return out;
  }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }

 private:
  std::vector<std::string_view> v_;
};
namespace verif_split {
template <typename D>
std::pair<D, int> Norm(const D &d) { return {d, -1}; }
inline std::pair<ByChar, int> Norm(char c) { return {ByChar(c), -1}; }
inline std::pair<ByString, int> Norm(const char *s) { return {ByString(s), -1}; }
inline std::pair<ByString, int> Norm(std::string_view s) { return {ByString(s), -1}; }
template <typename D>
std::pair<D, int> Norm(const VerifMaxSplits<D> &d) { return {d.d, d.limit}; }
}  // namespace verif_split
template <typename D, typename P = AllowEmpty>
VerifSplitResult StrSplit(std::string_view text, D delim, P pred = {}) {
  auto [d, limit] = verif_split::Norm(delim);
  std::vector<std::string_view> out;
  size_t from = 0;
  int count = 0;
  for (;;) {
    auto [pos, len] = (limit >= 0 && count >= limit)
                        ? std::pair<size_t, size_t>(text.npos, 0)
                        : d.Find(text, from);
    const auto piece = text.substr(from, pos == text.npos ? pos : pos - from);
    if (pred(piece)) out.push_back(piece);
    if (pos == text.npos) break;
    from = pos + len;
    ++count;
  }
  return VerifSplitResult(std::move(out));
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
