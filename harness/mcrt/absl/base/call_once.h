// Stand-in for the harnesses run under mcrt.
#ifndef ABSL_BASE_CALL_ONCE_H_
#define ABSL_BASE_CALL_ONCE_H_
#include <cstdint>
#include <functional>
#include <utility>
#include "absl/base/config.h"
#include "mcrt.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class once_flag {
 public:
  constexpr once_flag() = default;
  once_flag(const once_flag&) = delete;
  once_flag& operator=(const once_flag&) = delete;
  uint32_t v_ = 0;
};
template <class F, class... A>
__attribute__((always_inline)) inline void call_once(once_flag& f, F&& fn, A&&... a) {
  if (!mcrt::once_enter(&f.v_)) return;
  std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
  mcrt::once_done(&f.v_);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
