// absl/log/check.h is not in the installed libabsl-dev; a CHECK that aborts.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string_view>
namespace verif_shim {
class CheckFail {
 public:
  CheckFail(const char *file, int line, const char *expr) {
    msg_ << file << ":" << line << " Check failed: " << expr << " ";
  }
  [[noreturn]] ~CheckFail() {
    std::cerr << "CHECK-FAILURE " << msg_.str() << std::endl;
    abort();
  }
  std::ostream &stream() { return msg_; }

 private:
  std::ostringstream msg_;
};
struct Voidify {
  void operator&(std::ostream &) {}
};
class NullStream : public std::ostream {
 public:
  NullStream() : std::ostream(nullptr) {}
};
}  // namespace verif_shim
#define VERIF_CHECK_IMPL(cond, text)                          \
  (cond) ? (void)0                                            \
         : ::verif_shim::Voidify() &                          \
             ::verif_shim::CheckFail(__FILE__, __LINE__, text).stream()
#define CHECK(c) VERIF_CHECK_IMPL((c), #c)
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) VERIF_CHECK_IMPL((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_IMPL((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) VERIF_CHECK_IMPL((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) VERIF_CHECK_IMPL((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_IMPL((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) VERIF_CHECK_IMPL((a) >= (b), #a " >= " #b)
#define PCHECK(c) CHECK(c)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_NE(a, b) CHECK_NE(a, b)
#define QCHECK_LT(a, b) CHECK_LT(a, b)
#define QCHECK_LE(a, b) CHECK_LE(a, b)
#define QCHECK_GT(a, b) CHECK_GT(a, b)
#define QCHECK_GE(a, b) CHECK_GE(a, b)
#define CHECK_OK(s) VERIF_CHECK_IMPL((s).ok(), #s " is OK")
#define DCHECK_OK(s) CHECK_OK(s)
#define QCHECK_OK(s) CHECK_OK(s)
#define CHECK_STREQ(a, b) \
  VERIF_CHECK_IMPL(std::string_view(a) == std::string_view(b), #a " == " #b)
#define CHECK_STRNE(a, b) \
  VERIF_CHECK_IMPL(std::string_view(a) != std::string_view(b), #a " != " #b)
#define ABSL_CHECK(c) CHECK(c)
#define ABSL_CHECK_EQ(a, b) CHECK_EQ(a, b)
#define ABSL_CHECK_NE(a, b) CHECK_NE(a, b)
#define ABSL_CHECK_LT(a, b) CHECK_LT(a, b)
#define ABSL_CHECK_LE(a, b) CHECK_LE(a, b)
#define ABSL_CHECK_GT(a, b) CHECK_GT(a, b)
#define ABSL_CHECK_GE(a, b) CHECK_GE(a, b)
#define ABSL_DCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#endif
