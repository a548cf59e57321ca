#ifndef VERIF_COMPAT_ABSL_NO_DESTRUCTOR_H_
#define VERIF_COMPAT_ABSL_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/base/nullability.h"
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            std::enable_if_t<!std::is_same<void(std::decay_t<Ts>&...), void(NoDestructor&)>::value, int> = 0>
  explicit constexpr NoDestructor(Ts&&... args) : impl_(std::forward<Ts>(args)...) {}
  explicit constexpr NoDestructor(const T& x) : impl_(x) {}
  explicit constexpr NoDestructor(T&& x) : impl_(std::move(x)) {}
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return impl_.get(); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return impl_.get(); }
 private:
  class DirectImpl {
   public:
    template <typename... Args>
    explicit constexpr DirectImpl(Args&&... args) : value_(std::forward<Args>(args)...) {}
    const T* get() const { return &value_; }
    T* get() { return &value_; }
   private:
    T value_;
  };
  class PlacementImpl {
   public:
    template <typename... Args>
    explicit PlacementImpl(Args&&... args) { new (&space_) T(std::forward<Args>(args)...); }
    const T* get() const { return std::launder(reinterpret_cast<const T*>(&space_)); }
    T* get() { return std::launder(reinterpret_cast<T*>(&space_)); }
   private:
    alignas(T) unsigned char space_[sizeof(T)];
  };
  std::conditional_t<std::is_trivially_destructible<T>::value, DirectImpl, PlacementImpl> impl_;
};
template <typename T> NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
