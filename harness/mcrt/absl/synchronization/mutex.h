// Stand-in for the harnesses run under mcrt.
#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#include <functional>
#include <memory>

#include "absl/base/config.h"
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "mcrt.h"

// The classes have the names of the library's: nothing of them may become a symbol.
#define MCRT_INL __attribute__((always_inline))

namespace absl {
ABSL_NAMESPACE_BEGIN
class Condition {
 public:
  MCRT_INL explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <class T>
  MCRT_INL Condition(bool (*fn)(T*), T* a) : f_([fn, a] { return fn(a); }) {}
  template <class T>
  MCRT_INL Condition(T* o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  MCRT_INL Condition(const T* o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  template <class T, class E = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
  MCRT_INL explicit Condition(const T* o) : f_([o] { return (*o)(); }) {}
  MCRT_INL bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class ABSL_LOCKABLE Mutex {
 public:
  MCRT_INL constexpr Mutex() {}
  MCRT_INL constexpr explicit Mutex(ConstInitType) {}
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  MCRT_INL ~Mutex() { mcrt::mu_destroy(this); }
  MCRT_INL void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { mcrt::mu_lock(this); }
  MCRT_INL void Unlock() ABSL_UNLOCK_FUNCTION() { mcrt::mu_unlock(this); }
  MCRT_INL bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return mcrt::mu_try_lock(this); }
  MCRT_INL void lock() { Lock(); }
  MCRT_INL void unlock() { Unlock(); }
  MCRT_INL bool try_lock() { return TryLock(); }
  MCRT_INL void ReaderLock() { mcrt::mu_rlock(this); }
  MCRT_INL void ReaderUnlock() { mcrt::mu_runlock(this); }
  MCRT_INL bool ReaderTryLock() { return mcrt::mu_try_rlock(this); }
  MCRT_INL void lock_shared() { ReaderLock(); }
  MCRT_INL void unlock_shared() { ReaderUnlock(); }
  MCRT_INL bool try_lock_shared() { return ReaderTryLock(); }
  MCRT_INL void WriterLock() { Lock(); }
  MCRT_INL void WriterUnlock() { Unlock(); }
  MCRT_INL void AssertHeld() const { mcrt::expect(mcrt::mu_held(this), "AssertHeld fails"); }
  MCRT_INL void AssertReaderHeld() const {}
  MCRT_INL void Await(const Condition& c) { wait(c, false, true); }
  MCRT_INL bool AwaitWithTimeout(const Condition& c, Duration) { return wait(c, true, true); }
  MCRT_INL bool AwaitWithDeadline(const Condition& c, Time) { return wait(c, true, true); }
  MCRT_INL void LockWhen(const Condition& c) { Lock(); wait(c, false); }
  MCRT_INL bool LockWhenWithTimeout(const Condition& c, Duration) { Lock(); return wait(c, true); }
  MCRT_INL bool LockWhenWithDeadline(const Condition& c, Time) { Lock(); return wait(c, true); }
  MCRT_INL void ReaderLockWhen(const Condition& c) { rwait(c, false); }
  MCRT_INL bool ReaderLockWhenWithTimeout(const Condition& c, Duration) { return rwait(c, true); }

 private:
  // `changed`: the caller may have changed what others wait for. A failed
  // evaluation changes nothing and must not wake the other waiters.
  MCRT_INL bool wait(const Condition& c, bool timed, bool changed = false) {
    while (!c.Eval()) {
      bool to = false;
      mcrt::mu_unlock_wait(this, changed, timed, &to);
      changed = false;
      Lock();
      if (to) return c.Eval();
    }
    return true;
  }
  MCRT_INL bool rwait(const Condition& c, bool timed) {
    ReaderLock();
    while (!c.Eval()) {
      bool to = false;
      mcrt::mu_runlock_wait(this, timed, &to);
      ReaderLock();
      if (to) return c.Eval();
    }
    return true;
  }
  char pad_[8] = {};
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  MCRT_INL explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  MCRT_INL explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  MCRT_INL MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MCRT_INL MutexLock(Mutex& m, const Condition& c) : m_(&m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  MCRT_INL ~MutexLock() { m_->Unlock(); }

 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  MCRT_INL explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  MCRT_INL explicit ReaderMutexLock(Mutex& m) : m_(&m) { m_->ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  MCRT_INL ~ReaderMutexLock() { m_->ReaderUnlock(); }

 private:
  Mutex* m_;
};
class ABSL_SCOPED_LOCKABLE MutexLockMaybe {
 public:
  MCRT_INL explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m_) m_->Lock(); }
  MCRT_INL ~MutexLockMaybe() { if (m_) m_->Unlock(); }

 private:
  Mutex* m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  MCRT_INL explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  MCRT_INL explicit ReleasableMutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  MCRT_INL ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  MCRT_INL void Release() { m_->Unlock(); m_ = nullptr; }

 private:
  Mutex* m_;
};
class CondVar {
 public:
  CondVar() = default;
  CondVar(const CondVar&) = delete;
  MCRT_INL void Wait(Mutex* m) { mcrt::cv_wait(this, m, false, nullptr); }
  MCRT_INL bool WaitWithTimeout(Mutex* m, Duration) { bool to = false; mcrt::cv_wait(this, m, true, &to); return to; }
  MCRT_INL bool WaitWithDeadline(Mutex* m, Time) { bool to = false; mcrt::cv_wait(this, m, true, &to); return to; }
  MCRT_INL void Signal() { mcrt::cv_signal(this, false); }
  MCRT_INL void SignalAll() { mcrt::cv_signal(this, true); }

 private:
  char pad_[8] = {};
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
