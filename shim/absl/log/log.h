#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define VERIF_LOG_INFO std::cerr
#define VERIF_LOG_WARNING std::cerr
#define VERIF_LOG_ERROR std::cerr
#define VERIF_LOG_FATAL \
  ::verif_shim::CheckFail(__FILE__, __LINE__, "LOG(FATAL)").stream()
#define VERIF_LOG_DFATAL VERIF_LOG_FATAL
#define VERIF_LOG_QFATAL VERIF_LOG_FATAL
#define LOG(s) VERIF_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : ::verif_shim::Voidify() & VERIF_LOG_##s
#define LOG_FIRST_N(s, n) LOG(s)
#define LOG_EVERY_N(s, n) LOG(s)
#define DLOG(s) LOG(s)
#define DLOG_IF(s, c) LOG_IF(s, c)
#define PLOG(s) LOG(s)
#define VLOG(n) LOG_IF(INFO, false)
#define VLOG_IS_ON(n) false
#define ABSL_LOG(s) LOG(s)
#define ABSL_LOG_IF(s, c) LOG_IF(s, c)
#define ABSL_VLOG(n) VLOG(n)
#endif
