#ifndef VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#define VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#include <utility>
#include "absl/log/check.h"
namespace verif_shim {
template <typename T>
inline T DieIfNull(const char *file, int line, const char *e, T &&t) {
  if (t == nullptr) CheckFail(file, line, e).stream() << "is null";
  return std::forward<T>(t);
}
}  // namespace verif_shim
#define ABSL_DIE_IF_NULL(v) \
  ::verif_shim::DieIfNull(__FILE__, __LINE__, #v, (v))
#endif
