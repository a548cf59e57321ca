// Stand-in for the harnesses run under mcrt.
#ifndef ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#define ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class BlockingCounter {
 public:
  MCRT_INL explicit BlockingCounter(int n) : n_(n) {}
  MCRT_INL bool DecrementCount() { MutexLock l(&mu_); return --n_ == 0; }
  MCRT_INL void Wait() { mu_.LockWhen(Condition(this, &BlockingCounter::Zero)); mu_.Unlock(); }
 private:
  MCRT_INL bool Zero() const { return n_ == 0; }
  Mutex mu_;
  int n_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
