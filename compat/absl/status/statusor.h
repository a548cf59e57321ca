// Installed statusor.h plus StatusOr<T&> (newer abseil).
#ifndef VERIF_COMPAT_STATUSOR_H_
#define VERIF_COMPAT_STATUSOR_H_
#include_next "absl/status/statusor.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
class StatusOr<T&> {
 public:
  using value_type = T&;
  StatusOr(T& v) : ptr_(&v) {}  // NOLINT
  StatusOr(absl::Status s) : status_(std::move(s)) { if (status_.ok()) status_ = absl::InternalError("OK status"); }  // NOLINT
  template <typename U, std::enable_if_t<std::is_convertible<U*, T*>::value && !std::is_same<U, T>::value, int> = 0>
  StatusOr(const StatusOr<U&>& o) { if (o.ok()) ptr_ = &*o; else status_ = o.status(); }  // NOLINT
  bool ok() const { return ptr_ != nullptr; }
  const absl::Status& status() const& { static const absl::Status* k = new absl::Status; return ptr_ ? *k : status_; }
  absl::Status status() && { return ptr_ ? absl::OkStatus() : std::move(status_); }
  T& value() const { return **this; }
  T& operator*() const { if (!ptr_) __builtin_trap(); return *ptr_; }
  T* operator->() const { return &**this; }
 private:
  T* ptr_ = nullptr;
  absl::Status status_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
