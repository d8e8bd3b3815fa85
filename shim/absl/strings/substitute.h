#ifndef VERIF_ABSL_SUBSTITUTE_H_
#define VERIF_ABSL_SUBSTITUTE_H_
#include <initializer_list>
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename... A>
void SubstituteAndAppend(std::string *out, std::string_view f, const A &...a) {
  const std::string args[sizeof...(A) + 1] = {std::string(::verif_shim::Piece(a).sv())...};
  std::string r;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '$' || i + 1 == f.size()) { r += f[i]; continue; }
    ++i;
    if (f[i] >= '0' && size_t(f[i] - '0') < sizeof...(A)) r += args[f[i] - '0'];
    else r += f[i];
  }
  out->append(r);
}
template <typename... A>
[[nodiscard]] std::string Substitute(std::string_view f, const A &...a) {
  std::string r;
  SubstituteAndAppend(&r, f, a...);
  return r;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
