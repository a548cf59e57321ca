// Controlled execution of multi-threaded code.
//
// The code under test and the harness are compiled with -fsanitize=thread and
// linked with this runtime instead of the ThreadSanitizer runtime.  Threads are
// real, but exactly one runs at a time; before every synchronisation operation
// (atomic, mutex, condition variable, once, guard, create, join) the explorer in
// mc.h chooses which thread goes on.  Along each schedule plain accesses are
// checked for data races with vector clocks that honour the memory orders, and
// atomic loads may return any value the C++ memory model allows (within the budget).
#ifndef VERIF_MCRT_H_
#define VERIF_MCRT_H_

#include <cstdint>
#include <functional>
#include <string>

namespace mcrt {

struct Options {
  int bound = 2;       // preemptions, stale reads and spurious wake-ups per execution
  bool stale = true;   // explore stale values of atomic loads
  bool leaks = true;   // memory allocated by the body must be freed by it
  bool forked = false; // run each execution in a fresh process (for process-wide state)
  int max_steps = 20000;
};

// Runs `body` as thread 0 of a controlled execution; throws mc::Violation.
// The first call in a process runs the body twice (see mcrt.cc).
void run(const Options& o, const std::function<void()>& body);

// Records a violation (the first one counts) without unwinding.
void expect(bool cond, const std::string& msg);
// Environment choice; 0 is the default. Costs nothing.
int choose(int n);
void yield();
int tid();
bool active();
int64_t now();  // scheduling steps so far
// Accesses inside are not checked and are not scheduling points.
struct Quiet {
  Quiet();
  ~Quiet();
};
void say(const std::string& s);
void outcome(const std::string& s);
void state(const std::string& s);

// Primitives for the overlay of absl synchronisation.
void mu_lock(const void* m);
bool mu_try_lock(const void* m);
void mu_unlock(const void* m);
void mu_rlock(const void* m);
bool mu_try_rlock(const void* m);
void mu_runlock(const void* m);
void mu_destroy(const void* m);
bool mu_held(const void* m);
// Releases m and blocks until another thread has released it after a possible change.
void mu_unlock_wait(const void* m, bool changed, bool timed, bool* timed_out);
void mu_runlock_wait(const void* m, bool timed, bool* timed_out);
void cv_wait(const void* c, const void* m, bool timed, bool* timed_out);
void cv_signal(const void* c, bool all);
bool once_enter(uint32_t* flag);
void once_done(uint32_t* flag);

}  // namespace mcrt

#endif
