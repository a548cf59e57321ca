// Stand-in for the harnesses run under mcrt.
#ifndef ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#include <atomic>
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// Same protocol as the original: a lock-free flag over a mutex.
class Notification {
 public:
  MCRT_INL Notification() : done_(false) {}
  MCRT_INL explicit Notification(bool p) : done_(p) {}
  Notification(const Notification&) = delete;
  MCRT_INL ~Notification() { MutexLock l(&mu_); }
  MCRT_INL bool HasBeenNotified() const { return done_.load(std::memory_order_acquire); }
  MCRT_INL void WaitForNotification() const {
    if (HasBeenNotified()) return;
    mu_.LockWhen(Condition(this, &Notification::Done));
    mu_.Unlock();
  }
  MCRT_INL bool WaitForNotificationWithTimeout(Duration d) const {
    if (HasBeenNotified()) return true;
    bool r = mu_.LockWhenWithTimeout(Condition(this, &Notification::Done), d);
    mu_.Unlock();
    return r;
  }
  MCRT_INL bool WaitForNotificationWithDeadline(Time) const { return WaitForNotificationWithTimeout(Duration()); }
  MCRT_INL void Notify() {
    MutexLock l(&mu_);
    mcrt::expect(!done_.load(std::memory_order_relaxed), "Notify() called more than once");
    done_.store(true, std::memory_order_release);
  }

 private:
  MCRT_INL bool Done() const { return done_.load(std::memory_order_acquire); }
  mutable Mutex mu_;
  std::atomic<bool> done_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
