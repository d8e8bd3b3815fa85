#ifndef VERIF_ABSL_ESCAPING_H_
#define VERIF_ABSL_ESCAPING_H_
#include <cstdio>
#include <string>
#include <string_view>
#include <utility>
#include "absl/base/config.h"
namespace verif_shim {
inline std::string CEscapeImpl(std::string_view s, bool hex, bool utf8) {
  std::string out;
  bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
    case '\n': out += "\\n"; break;
    case '\r': out += "\\r"; break;
    case '\t': out += "\\t"; break;
    case '"': out += "\\\""; break;
    case '\'': out += "\\'"; break;
    case '\\': out += "\\\\"; break;
    default:
      if ((!utf8 || c < 0x80) &&
          (c < 0x20 || c >= 0x7f ||
           (last_hex && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') ||
                         (c >= 'A' && c <= 'F'))))) {
        char buf[8];
        snprintf(buf, sizeof(buf), hex ? "\\x%02x" : "\\%03o", c);
        out += buf;
        is_hex = hex;
      } else {
        out += static_cast<char>(c);
      }
    }
    last_hex = is_hex;
  }
  return out;
}
}  // namespace verif_shim
namespace absl {
ABSL_NAMESPACE_BEGIN
inline std::string CEscape(std::string_view s) {
  return ::verif_shim::CEscapeImpl(s, false, false);
}
inline std::string CHexEscape(std::string_view s) {
  return ::verif_shim::CEscapeImpl(s, true, false);
}
inline std::string Utf8SafeCEscape(std::string_view s) {
  return ::verif_shim::CEscapeImpl(s, false, true);
}
inline std::string Utf8SafeCHexEscape(std::string_view s) {
  return ::verif_shim::CEscapeImpl(s, true, true);
}
inline std::string BytesToHexString(std::string_view s) {
  std::string out;
  for (unsigned char c : s) {
    out += "0123456789abcdef"[c >> 4];
    out += "0123456789abcdef"[c & 15];
  }
  return out;
}
inline bool CUnescape(std::string_view s, std::string *dest, std::string * = nullptr) {
  std::string out;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') { out += s[i]; continue; }
    if (++i == s.size()) return false;
    constexpr std::string_view from = "abfnrtv\\?'\"", to = "\a\b\f\n\r\t\v\\?'\"";
    auto digits = [&](size_t pos, size_t max, unsigned base) {
      unsigned v = 0;
      size_t n = 0;
      for (; n < max && pos + n < s.size(); ++n) {
        const char c = s[pos + n];
        const unsigned d = c >= '0' && c <= '9' ? c - '0'
                         : c >= 'a' && c <= 'f' ? c - 'a' + 10
                         : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d >= base) break;
        v = v * base + d;
      }
      return std::make_pair(v, n);
    };
    if (auto f = from.find(s[i]); f != from.npos) {
      out += to[f];
    } else if (s[i] >= '0' && s[i] <= '7') {
      const auto [v, n] = digits(i, 3, 8);
      if (v > 255) return false;
      out += static_cast<char>(v);
      i += n - 1;
    } else if (s[i] == 'x' || s[i] == 'X') {
      const auto [v, n] = digits(i + 1, s.size(), 16);
      if (n == 0 || v > 255) return false;
      out += static_cast<char>(v);
      i += n;
    } else {
      return false;
    }
  }
  *dest = out;
  return true;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
