// Minimal declaration of the RE2 API, bound to the *real* libre2.so.10
// (20230301) that is installed here without its headers. Only out-of-line
// symbols of the library are used; the RE2 object itself is opaque.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <atomic>
#include <charconv>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <mutex>
#include <string>
#include <string_view>
#include <type_traits>

namespace re2 {
class StringPiece {
 public:
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s)  // NOLINT
      : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string &s)  // NOLINT
      : data_(s.data()), size_(s.size()) {}
  StringPiece(const char *s) : data_(s), size_(s ? strlen(s) : 0) {}  // NOLINT
  operator std::string_view() const { return {data_, size_}; }  // NOLINT
  const char *data() const { return data_; }
  size_t size() const { return size_; }

 private:
  const char *data_;
  size_t size_;
};

class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };

  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options() : Options(DefaultOptions) {}
    Options(CannedOptions);  // NOLINT; in the library
    void set_max_mem(int64_t m) { max_mem_ = m; }
    void set_posix_syntax(bool b) { posix_syntax_ = b; }
    void set_longest_match(bool b) { longest_match_ = b; }
    void set_log_errors(bool b) { log_errors_ = b; }
    void set_literal(bool b) { literal_ = b; }
    void set_never_nl(bool b) { never_nl_ = b; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    void set_never_capture(bool b) { never_capture_ = b; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    void set_perl_classes(bool b) { perl_classes_ = b; }
    void set_word_boundary(bool b) { word_boundary_ = b; }
    void set_one_line(bool b) { one_line_ = b; }
    void set_encoding(Encoding e) { encoding_ = e; }
    void set_utf8(bool b) { encoding_ = b ? EncodingUTF8 : EncodingLatin1; }
    Encoding encoding() const { return static_cast<Encoding>(encoding_); }
    int64_t max_mem() const { return max_mem_; }
    bool posix_syntax() const { return posix_syntax_; }
    bool longest_match() const { return longest_match_; }
    bool log_errors() const { return log_errors_; }
    bool literal() const { return literal_; }
    bool never_nl() const { return never_nl_; }
    bool dot_nl() const { return dot_nl_; }
    bool never_capture() const { return never_capture_; }
    bool case_sensitive() const { return case_sensitive_; }
    bool perl_classes() const { return perl_classes_; }
    bool word_boundary() const { return word_boundary_; }
    bool one_line() const { return one_line_; }

   private:
    int64_t max_mem_;
    int encoding_;
    bool posix_syntax_;
    bool longest_match_;
    bool log_errors_;
    bool literal_;
    bool never_nl_;
    bool dot_nl_;
    bool never_capture_;
    bool case_sensitive_;
    bool perl_classes_;
    bool word_boundary_;
    bool one_line_;
  };

  RE2(const char *pattern);                              // NOLINT
  RE2(const std::string &pattern);                       // NOLINT
  RE2(const StringPiece &pattern);                       // NOLINT
  RE2(std::string_view s) : RE2(StringPiece(s)) {}       // NOLINT
  RE2(const StringPiece &pattern, const Options &opt);
  ~RE2();
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;

  bool ok() const { return ProgramSize() >= 0; }
  std::string error() const { return ok() ? "" : "invalid regular expression"; }
  ErrorCode error_code() const { return ok() ? NoError : ErrorInternal; }
  int ProgramSize() const;
  bool Match(const StringPiece &text, size_t startpos, size_t endpos,
             Anchor re_anchor, StringPiece *submatch, int nsubmatch) const;
  static std::string QuoteMeta(const StringPiece &unquoted);
  static bool Replace(std::string *str, const RE2 &re,
                      const StringPiece &rewrite);
  static int GlobalReplace(std::string *str, const RE2 &re,
                           const StringPiece &rewrite);

  template <typename... A>
  static bool FullMatch(const StringPiece &text, const RE2 &re, A &&...a) {
    return Apply(text, re, ANCHOR_BOTH, nullptr, a...);
  }
  template <typename... A>
  static bool PartialMatch(const StringPiece &text, const RE2 &re, A &&...a) {
    return Apply(text, re, UNANCHORED, nullptr, a...);
  }
  template <typename S, typename... A>
  static bool Consume(S *input, const RE2 &re, A &&...a) {
    return ConsumeImpl(input, re, ANCHOR_START, a...);
  }
  template <typename S, typename... A>
  static bool FindAndConsume(S *input, const RE2 &re, A &&...a) {
    return ConsumeImpl(input, re, UNANCHORED, a...);
  }

 private:
  static bool Store(const StringPiece &s, std::string_view *out) {
    if (out) *out = s;
    return true;
  }
  static bool Store(const StringPiece &s, StringPiece *out) {
    if (out) *out = s;
    return true;
  }
  static bool Store(const StringPiece &s, std::string *out) {
    if (out) *out = std::string(s.data() ? s.data() : "", s.size());
    return true;
  }
  static bool Store(const StringPiece &, std::nullptr_t) { return true; }
  template <typename I>
    requires std::is_integral_v<I>
  static bool Store(const StringPiece &s, I *out) {
    I v;
    auto r = std::from_chars(s.data(), s.data() + s.size(), v);
    if (s.size() == 0 || r.ec != std::errc{} || r.ptr != s.data() + s.size()) {
      return false;
    }
    if (out) *out = v;
    return true;
  }

  template <typename... A>
  static bool Apply(const StringPiece &text, const RE2 &re, Anchor anchor,
                    size_t *consumed, A &&...a) {
    constexpr int kN = 1 + static_cast<int>(sizeof...(A));
    StringPiece sub[kN];
    if (!re.Match(text, 0, text.size(), anchor, sub, kN)) return false;
    if (consumed) *consumed = sub[0].data() + sub[0].size() - text.data();
    int i = 1;
    bool all = true;
    ((all = Store(sub[i++], a) && all), ...);
    return all;
  }
  template <typename S, typename... A>
  static bool ConsumeImpl(S *input, const RE2 &re, Anchor anchor, A &&...a) {
    size_t consumed = 0;
    const std::string_view in = *input;
    if (!Apply(StringPiece(in), re, anchor, &consumed, a...)) return false;
    *input = S(in.substr(consumed));
    return true;
  }

  // Storage of the real object (well above its size in any 10.x version).
  alignas(16) char opaque_[1024];
};

class LazyRE2 {
 public:
  RE2 &operator*() const { return *get(); }
  RE2 *operator->() const { return get(); }
  RE2 *get() const {
    RE2 *p = ptr_.load(std::memory_order_acquire);
    if (p == nullptr) {
      RE2 *fresh = new RE2(StringPiece(pattern_), RE2::Options(options_));
      if (ptr_.compare_exchange_strong(p, fresh)) return fresh;
      delete fresh;
    }
    return p;
  }
  const char *pattern_;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
  mutable std::atomic<RE2 *> ptr_ = nullptr;
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
#endif
