// Header-only replacement of the parts of absl/strings that bant uses (the
// installed libabsl was built with its own absl::string_view type and cannot
// be linked with std::string_view arguments).
#ifndef VERIF_ABSL_STRINGS_COMMON_H_
#define VERIF_ABSL_STRINGS_COMMON_H_
#include <charconv>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
namespace verif_shim {
struct Padded {
  template <typename I>
  Padded(I v, int base, int pad) {
    char digits[70];
    const size_t n = std::to_chars(digits, digits + sizeof(digits), v, base).ptr - digits;
    const size_t width = pad >= 64 ? pad - 64 : pad;
    if (n < width) text.assign(width - n, pad >= 64 ? ' ' : '0');
    text.append(digits, n);
  }
  std::string text;
};
// What StrCat() & friends accept.
class Piece {
 public:
  Piece(std::string_view s) : sv_(s) {}          // NOLINT
  Piece(const std::string &s) : sv_(s) {}        // NOLINT
  Piece(const char *s) : sv_(s ? s : "") {}      // NOLINT
  template <typename I>
    requires(std::is_integral_v<I> && !std::is_same_v<I, char>)
  Piece(I v) {                                   // NOLINT
    char *end;
    if constexpr (std::is_same_v<I, bool>) {
      end = std::to_chars(buf_, buf_ + sizeof(buf_), int(v)).ptr;
    } else {
      end = std::to_chars(buf_, buf_ + sizeof(buf_), v).ptr;
    }
    sv_ = std::string_view(buf_, end - buf_);
  }
  Piece(double d) {                              // NOLINT
    sv_ = std::string_view(buf_, snprintf(buf_, sizeof(buf_), "%g", d));
  }
  Piece(const Padded &p) : sv_(p.text) {}        // NOLINT
  Piece(const Piece &) = delete;
  std::string_view sv() const { return sv_; }

 private:
  std::string_view sv_;
  char buf_[40];
};
}  // namespace verif_shim
#endif
