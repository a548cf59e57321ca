// Compatibility shim (verification build only): absl/log/check.h on top of the
// installed abseil 20220623, which has no public logging library.
#ifndef VERIF_COMPAT_ABSL_LOG_CHECK_H_
#define VERIF_COMPAT_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include "absl/base/attributes.h"
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"

namespace verif_compat {
class FatalMessage {
 public:
  FatalMessage(const char* file, int line, std::string what) {
    os_ << file << ":" << line << "] " << what << " ";
  }
  [[noreturn]] ~FatalMessage() {
    std::string s = os_.str();
    std::fprintf(stderr, "FATAL %s\n", s.c_str());
    std::fflush(stderr);
    std::abort();
  }
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
};
class LogMessage {
 public:
  LogMessage(const char* file, int line) { os_ << file << ":" << line << "] "; }
  ~LogMessage() {
    std::string s = os_.str();
    std::fprintf(stderr, "%s\n", s.c_str());
  }
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
};
class NullStream {
 public:
  template <typename T> const NullStream& operator<<(const T&) const { return *this; }
};
struct Voidify {
  void operator&(std::ostream&) const {}
  void operator&(const NullStream&) const {}
};
template <typename T>
T DieIfNull(const char* file, int line, const char* expr, T&& t) {
  if (t == nullptr) { FatalMessage(file, line, std::string("Check failed: ") + expr + " is null").stream(); }
  return std::forward<T>(t);
}
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T> const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_compat

#define VERIF_CHECK_IMPL(cond, text) \
  ABSL_PREDICT_TRUE(static_cast<bool>(cond)) ? (void)0 : ::verif_compat::Voidify() & \
      ::verif_compat::FatalMessage(__FILE__, __LINE__, "Check failed: " text).stream()
#define CHECK(cond) VERIF_CHECK_IMPL((cond), #cond)
#define CHECK_EQ(a, b) VERIF_CHECK_IMPL((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_IMPL((a) != (b), #a " != " #b)
#define CHECK_LE(a, b) VERIF_CHECK_IMPL((a) <= (b), #a " <= " #b)
#define CHECK_LT(a, b) VERIF_CHECK_IMPL((a) < (b), #a " < " #b)
#define CHECK_GE(a, b) VERIF_CHECK_IMPL((a) >= (b), #a " >= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_IMPL((a) > (b), #a " > " #b)
#define CHECK_OK(expr) \
  if (const auto& verif_st = (expr); ABSL_PREDICT_TRUE(::verif_compat::AsStatus(verif_st).ok())) {} else \
    ::verif_compat::FatalMessage(__FILE__, __LINE__, "Check failed: " #expr " is OK: " + \
        std::string(::verif_compat::AsStatus(verif_st).ToString())).stream()
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define VERIF_NULLCHECK(cond) true ? (void)0 : ::verif_compat::Voidify() & \
      (::verif_compat::NullStream() << static_cast<bool>(cond))
#if defined(NDEBUG) && !defined(VERIF_DCHECK_ALWAYS_ON)
#define DCHECK(c) VERIF_NULLCHECK(c)
#define DCHECK_EQ(a, b) VERIF_NULLCHECK((a) == (b))
#define DCHECK_NE(a, b) VERIF_NULLCHECK((a) != (b))
#define DCHECK_LE(a, b) VERIF_NULLCHECK((a) <= (b))
#define DCHECK_LT(a, b) VERIF_NULLCHECK((a) < (b))
#define DCHECK_GE(a, b) VERIF_NULLCHECK((a) >= (b))
#define DCHECK_GT(a, b) VERIF_NULLCHECK((a) > (b))
#define DCHECK_OK(e) VERIF_NULLCHECK((e).ok())
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_OK CHECK_OK
#endif
#define ABSL_DIE_IF_NULL(v) ::verif_compat::DieIfNull(__FILE__, __LINE__, #v, (v))
#endif
