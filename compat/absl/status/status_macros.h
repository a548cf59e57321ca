#ifndef VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#define VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#include <optional>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/types/source_location.h"
namespace absl {
class StatusBuilder {
 public:
  StatusBuilder(const absl::Status& s, SourceLocation loc) : status_(s), loc_(loc) {}
  StatusBuilder(absl::Status&& s, SourceLocation loc) : status_(std::move(s)), loc_(loc) {}
  StatusBuilder(const StatusBuilder& o) : status_(o.status_), msg_(o.msg_), prepend_(o.prepend_), loc_(o.loc_) {}
  StatusBuilder(StatusBuilder&&) = default;
  template <typename T> StatusBuilder& operator<<(const T& v) & {
    if (!status_.ok()) { std::ostringstream os; os << v; msg_ += os.str(); }
    return *this;
  }
  template <typename T> StatusBuilder&& operator<<(const T& v) && { return std::move(*this << v); }
  template <typename F> auto With(F&& f) && -> decltype(std::forward<F>(f)(std::declval<StatusBuilder>())) {
    return std::forward<F>(f)(std::move(*this));
  }
  template <typename F> auto With(F&& f) & -> decltype(std::forward<F>(f)(std::declval<StatusBuilder&>())) {
    return std::forward<F>(f)(*this);
  }
  StatusBuilder& SetPrepend() & { prepend_ = true; return *this; }
  StatusBuilder&& SetPrepend() && { prepend_ = true; return std::move(*this); }
  bool ok() const { return status_.ok(); }
  absl::StatusCode code() const { return status_.code(); }
  SourceLocation source_location() const { return loc_; }
  operator absl::Status() const& { return Get(); }
  operator absl::Status() && { return Get(); }
  template <typename T> operator absl::StatusOr<T>() const& { return Get(); }
  template <typename T> operator absl::StatusOr<T>() && { return Get(); }
 private:
  absl::Status Get() const {
    if (status_.ok() || msg_.empty()) return status_;
    absl::Status r(status_.code(), prepend_ ? absl::StrCat(msg_, status_.message()) :
        status_.message().empty() ? msg_ : absl::StrCat(status_.message(), "; ", msg_));
    status_.ForEachPayload([&](absl::string_view url, const absl::Cord& p) { r.SetPayload(url, p); });
    return r;
  }
  absl::Status status_;
  std::string msg_;
  bool prepend_ = false;
  SourceLocation loc_;
};
}  // namespace absl
namespace verif_compat {
template <typename T> struct IsStatusOr : std::false_type {};
template <typename T> struct IsStatusOr<absl::StatusOr<T>> : std::true_type {};
inline absl::Status ToStatus(absl::Status s) { return s; }
inline absl::Status ToStatus(absl::StatusBuilder s) { return absl::Status(std::move(s)); }
template <typename T> absl::Status ToStatus(absl::StatusOr<T> s) { return std::move(s).status(); }
struct StatusHolder {
  absl::Status st;
  template <typename T> explicit StatusHolder(T&& t) : st(ToStatus(std::forward<T>(t))) {}
  explicit operator bool() const { return ABSL_PREDICT_TRUE(st.ok()); }
};
}  // namespace verif_compat
#define RETURN_IF_ERROR(expr) \
  switch (0) case 0: default: \
  if (::verif_compat::StatusHolder verif_h((expr)); verif_h) {} else \
    return ::absl::StatusBuilder(std::move(verif_h.st), ::absl::SourceLocation::current())
#define VERIF_CONCAT_(a, b) a##b
#define VERIF_CONCAT(a, b) VERIF_CONCAT_(a, b)
#define VERIF_UNPAREN(...) VERIF_UNPAREN_IF_(VERIF_IS_PAREN(__VA_ARGS__), __VA_ARGS__)
#define VERIF_IS_PAREN_PROBE(...) ~, 1
#define VERIF_SECOND(a, b, ...) b
#define VERIF_IS_PAREN_CHECK(...) VERIF_SECOND(__VA_ARGS__, 0, 0)
#define VERIF_IS_PAREN(x, ...) VERIF_IS_PAREN_CHECK(VERIF_IS_PAREN_PROBE x)
#define VERIF_UNPAREN_IF_(c, ...) VERIF_CONCAT(VERIF_UNPAREN_IF_, c)(__VA_ARGS__)
#define VERIF_UNPAREN_IF_0(...) __VA_ARGS__
#define VERIF_UNPAREN_IF_1(...) VERIF_REMOVE_PAREN __VA_ARGS__
#define VERIF_REMOVE_PAREN(...) __VA_ARGS__
#define VERIF_AOR_IMPL(tmp, lhs, rexpr, err) \
  auto tmp = (rexpr); \
  if (ABSL_PREDICT_FALSE(!tmp.ok())) { \
    ::absl::StatusBuilder _(std::move(tmp).status(), ::absl::SourceLocation::current()); \
    (void)_; \
    return err; \
  } \
  VERIF_UNPAREN(lhs) = *std::move(tmp)
#define VERIF_AOR_2(lhs, rexpr) VERIF_AOR_IMPL(VERIF_CONCAT(verif_sor_, __COUNTER__), lhs, rexpr, _)
#define VERIF_AOR_3(lhs, rexpr, err) VERIF_AOR_IMPL(VERIF_CONCAT(verif_sor_, __COUNTER__), lhs, rexpr, err)
#define VERIF_AOR_PICK(a, b, c, name, ...) name
#define ASSIGN_OR_RETURN(...) VERIF_AOR_PICK(__VA_ARGS__, VERIF_AOR_3, VERIF_AOR_2, _bad)(__VA_ARGS__)
#endif
