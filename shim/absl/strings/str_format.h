#ifndef VERIF_ABSL_STR_FORMAT_H_
#define VERIF_ABSL_STR_FORMAT_H_
// printf-style formatting where, as in absl, the argument type decides and
// length modifiers are irrelevant; strings may be std::string(_view).
#include <algorithm>
#include <cstdio>
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include "absl/base/config.h"
#include "absl/log/check.h"
namespace verif_shim {
struct FmtArg {
  std::variant<long long, unsigned long long, double, std::string, char,
               const void *> v;
  FmtArg(std::string_view s) : v(std::string(s)) {}   // NOLINT
  FmtArg(const std::string &s) : v(s) {}              // NOLINT
  FmtArg(const char *s) : v(std::string(s)) {}        // NOLINT
  FmtArg(char c) : v(c) {}                            // NOLINT
  FmtArg(double d) : v(d) {}                          // NOLINT
  FmtArg(float d) : v(double(d)) {}                   // NOLINT
  template <typename I>
    requires(std::is_integral_v<I> && !std::is_same_v<I, char>)
  FmtArg(I i) {                                       // NOLINT
    if constexpr (std::is_signed_v<I>) v = (long long)i;
    else v = (unsigned long long)i;
  }
  template <typename T>
  FmtArg(const T *p) : v((const void *)p) {}          // NOLINT
  long long AsInt() const {
    if (auto *a = std::get_if<long long>(&v)) return *a;
    if (auto *b = std::get_if<unsigned long long>(&v)) return (long long)*b;
    if (auto *c = std::get_if<char>(&v)) return *c;
    return 0;
  }
};
inline std::string FormatImpl(std::string_view f,
                              const std::vector<FmtArg> &args) {
  std::string out;
  size_t next = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (++i < f.size() && f[i] == '%') { out += '%'; continue; }
    bool left = false;
    std::string flags;
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) {
      if (f[i] == '-') left = true; else flags += f[i];
      ++i;
    }
    long long width = 0, prec = -1;
    if (i < f.size() && f[i] == '*') {
      CHECK(next < args.size());
      width = args[next++].AsInt();
      if (width < 0) { left = true; width = -width; }
      ++i;
    } else {
      while (i < f.size() && isdigit(f[i])) width = width * 10 + f[i++] - '0';
    }
    if (i < f.size() && f[i] == '.') {
      ++i;
      prec = 0;
      if (i < f.size() && f[i] == '*') {
        CHECK(next < args.size());
        prec = args[next++].AsInt();
        ++i;
      } else {
        while (i < f.size() && isdigit(f[i])) prec = prec * 10 + f[i++] - '0';
      }
    }
    while (i < f.size() && std::string_view("hlLqjzt").find(f[i]) != std::string_view::npos) ++i;
    CHECK(i < f.size() && next < args.size());
    const char conv = f[i];
    const FmtArg &a = args[next++];
    if (auto *s = std::get_if<std::string>(&a.v)) {
      std::string_view sv = *s;
      if (prec >= 0) sv = sv.substr(0, prec);
      const size_t pad = (size_t)width > sv.size() ? width - sv.size() : 0;
      if (!left) out.append(pad, ' ');
      out.append(sv);
      if (left) out.append(pad, ' ');
      continue;
    }
    std::string spec = "%" + flags + (left ? "-" : "") + "*";
    if (prec >= 0) spec += "." + std::to_string(prec);
    char buf[512];
    int n = 0;
    if (auto *d = std::get_if<double>(&a.v)) {
      spec += conv;
      n = snprintf(buf, sizeof(buf), spec.c_str(), (int)width, *d);
    } else if (auto *p = std::get_if<const void *>(&a.v)) {
      spec += 'p';
      n = snprintf(buf, sizeof(buf), spec.c_str(), (int)width, *p);
    } else if (conv == 'c') {
      spec += 'c';
      n = snprintf(buf, sizeof(buf), spec.c_str(), (int)width, (int)a.AsInt());
    } else {
      spec += "ll";
      spec += (conv == 'v' || conv == 'i' || conv == 's') ? 'd' : conv;
      if (std::holds_alternative<unsigned long long>(a.v) && spec.back() == 'd') {
        spec.back() = 'u';
      }
      n = snprintf(buf, sizeof(buf), spec.c_str(), (int)width, a.AsInt());
    }
    out.append(buf, std::min<size_t>(n, sizeof(buf) - 1));
  }
  return out;
}
}  // namespace verif_shim
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename... A>
[[nodiscard]] std::string StrFormat(std::string_view f, const A &...a) {
  return ::verif_shim::FormatImpl(f, {::verif_shim::FmtArg(a)...});
}
template <typename... A>
int FPrintF(std::FILE *o, std::string_view f, const A &...a) {
  const std::string s = StrFormat(f, a...);
  return (int)fwrite(s.data(), 1, s.size(), o);
}
template <typename... A>
int PrintF(std::string_view f, const A &...a) {
  return FPrintF(stdout, f, a...);
}
template <typename... A>
[[nodiscard]] std::string StreamFormat(std::string_view f, const A &...a) {
  return StrFormat(f, a...);
}
template <typename... A>
std::string &StrAppendFormat(std::string *o, std::string_view f, const A &...a) {
  return o->append(StrFormat(f, a...));
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
