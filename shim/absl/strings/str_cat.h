#ifndef VERIF_ABSL_STR_CAT_H_
#define VERIF_ABSL_STR_CAT_H_
#include <cstdint>
#include "absl/base/config.h"
#include "absl/strings/verif_common.h"
#include "absl/strings/numbers.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
using AlphaNum = ::verif_shim::Piece;
enum PadSpec : uint8_t {
  kNoPad = 1,
  kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9,
  kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16,
  kSpacePad2 = 66, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8, kSpacePad9,
  kSpacePad10, kSpacePad11, kSpacePad12, kSpacePad13, kSpacePad14, kSpacePad15, kSpacePad16,
};
struct Hex : ::verif_shim::Padded {
  template <typename I>
  explicit Hex(I v, PadSpec p = kNoPad)
      : Padded(static_cast<unsigned long long>(std::make_unsigned_t<I>(v)), 16, p) {}
};
struct Dec : ::verif_shim::Padded {
  template <typename I>
  explicit Dec(I v, PadSpec p = kNoPad) : Padded(v, 10, p) {}
};
template <typename... A>
void StrAppend(std::string *dest, const A &...a) {
  // Assemble first: arguments may alias *dest.
  std::string out;
  (out.append(::verif_shim::Piece(a).sv()), ...);
  dest->append(out);
}
template <typename... A>
[[nodiscard]] std::string StrCat(const A &...a) {
  std::string out;
  (out.append(::verif_shim::Piece(a).sv()), ...);
  return out;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
