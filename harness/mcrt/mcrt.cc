#include "mcrt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

#include "../mc.h"

namespace mcrt {
namespace {

constexpr int kMaxT = 8;

struct VC {
  uint32_t c[kMaxT] = {};
  void join(const VC& o) {
    for (int i = 0; i < kMaxT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum Status { kRun, kMutex, kRMutex, kChange, kCond, kJoin, kOnce, kDone };

struct Thread {
  int tid = 0;
  pthread_t real{};
  Status st = kRun;
  const void* obj = nullptr;
  uint64_t version = 0;   // kChange
  int join_tid = 0;
  bool timed = false, timed_out = false, signaled = false, yielding = false;
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence = false;
  int go = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false, joined = false;
  uintptr_t stack_lo = 0, stack_hi = 0;
};

struct Cell {  // eight bytes of memory
  uintptr_t key;
  uint32_t gen;
  uint8_t has_atomic;
  int32_t atomic[8];   // index + 1 into g.atomics, by first byte
  uint8_t freed;
  uint32_t w[8];       // tid << 24 | clock of the last plain write
  uint32_t r[8][kMaxT];
  uint32_t aw[8][kMaxT], ar[8][kMaxT];
};

struct Store {
  unsigned __int128 val;
  int tid;
  uint32_t clk;
  VC rel;
  bool has_rel;
};
struct ReadRec {
  int tid;
  uint32_t clk;
  int idx;
};
struct Atomic {
  uintptr_t addr = 0;
  int size = 0;
  std::vector<Store> stores;  // modification order, possibly trimmed
  std::vector<ReadRec> reads;
  VC rel;                     // release clock of the latest store
  bool has_rel = false;
};

struct Mutex {
  int owner = -1, depth = 0;
  int readers[kMaxT] = {};
  int nreaders = 0;
  uint64_t version = 0;
  VC wrel, rrel;
};
struct Block {
  size_t size;
  bool freed;
  int tid;
  void* raw;
};

struct Global {
  bool active = false, aborting = false, warm = false;
  Options opt;
  std::vector<Thread*> threads;
  int cur = 0;
  int budget = 0;
  int64_t steps = 0;
  int64_t same = 0;  // consecutive steps of one thread
  std::vector<Cell> cells;
  size_t ncells = 0;
  uint32_t gen = 0;
  std::vector<Atomic> atomics;
  std::map<const void*, Mutex> mutexes;
  std::map<const void*, VC> conds;
  std::map<uintptr_t, Block> blocks;
  VC sc;
  std::string error;
  bool skip = false;
  int child_fd_out = -1, child_fd_in = -1;
  std::vector<std::string> log;
  int64_t tag = 0;
};
Global& G() {
  static Global* g = new Global;
  return *g;
}
__thread int in_rt = 0;
__thread Thread* self = nullptr;
struct Rt {
  Rt() { ++in_rt; }
  ~Rt() { --in_rt; }
};
inline bool managed() { return self != nullptr && in_rt == 0 && G().active; }

void fwait(int* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
void fwake(int* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void fatal(const std::string& msg) {
  Global& g = G();
  fprintf(stderr, "mcrt: %s\n", msg.c_str());
  for (Thread* t : g.threads) fprintf(stderr, "  thread %d status %d obj %p\n", t->tid, (int)t->st, t->obj);
  if (!g.error.empty()) fprintf(stderr, "  earlier: %s\n", g.error.c_str());
  fflush(stderr);
  _exit(97);
}
void error(const std::string& msg) {
  Global& g = G();
  if (g.error.empty()) g.error = msg;
  if (g.error.size() > 0) g.aborting = true;
}

void full(int fd, void* p, size_t n, bool wr) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = wr ? write(fd, c, n) : read(fd, c, n);
    if (k <= 0) _exit(98);
    c += k;
    n -= k;
  }
}

int choose_raw(int n) {
  Global& g = G();
  if (n <= 1 || g.aborting || g.warm) return 0;
  if (g.child_fd_out >= 0) {
    char k = 'C';
    full(g.child_fd_out, &k, 1, true);
    full(g.child_fd_out, &n, sizeof n, true);
    int c;
    full(g.child_fd_in, &c, sizeof c, false);
    return c;
  }
  try {
    return mc::choose(n);
  } catch (const mc::Skip&) {
    g.skip = true;
    g.aborting = true;
    return 0;
  }
}

// ---- scheduling

Mutex& mutex(const void* m) { return G().mutexes[m]; }

bool enabled(Thread* t) {
  switch (t->st) {
    case kRun: return true;
    case kMutex: {
      Mutex& m = mutex(t->obj);
      return m.owner == -1 && m.nreaders == 0;
    }
    case kRMutex: return mutex(t->obj).owner == -1;
    case kChange: return mutex(t->obj).version != t->version;
    case kCond: return t->signaled;
    case kJoin: return G().threads[t->join_tid]->st == kDone;
    case kOnce: return (*(const volatile uint32_t*)t->obj & 0xff00) != 0x100;  // not in progress
    case kDone: return false;
  }
  return false;
}

void switch_to(Thread* t) {
  Global& g = G();
  Thread* me = self;
  if (t == me) return;
  g.cur = t->tid;
  g.same = 0;
  fwake(&t->go);
}

// Chooses the next thread; the caller is self (maybe not enabled).
void reschedule(bool exiting) {
  Global& g = G();
  Thread* me = self;
  ++g.steps;
  ++g.same;
  if (g.steps > g.opt.max_steps) fatal("no progress: step limit reached");
  Thread* opts[2 * kMaxT];
  int cost[2 * kMaxT];
  int n = 0;
  bool me_on = !exiting && enabled(me) && !me->yielding;
  bool force = me_on && g.same > 600;  // fairness for spinning threads
  if (me_on && !force) opts[n] = me, cost[n] = 0, ++n;
  int nt = (int)g.threads.size();
  for (int d = 1; d < nt; ++d) {
    Thread* t = g.threads[(me->tid + d) % nt];
    if (enabled(t)) opts[n] = t, cost[n] = me_on && !force ? 1 : 0, ++n;
  }
  if (n == 0 && !exiting && enabled(me)) opts[n] = me, cost[n] = 0, ++n;
  // Timeouts and spurious wake-ups.
  bool normal = n > 0;
  for (int d = 0; d < nt; ++d) {
    Thread* t = g.threads[(me->tid + d) % nt];
    if (exiting && t == me) continue;
    if ((t->st == kCond && !t->signaled) || (t->st == kChange && !enabled(t))) {
      if (!normal && !t->timed) continue;
      opts[n] = t, cost[n] = normal ? 1 : 0, ++n;
    }
  }
  if (n == 0) {
    bool all_done = true;
    for (Thread* t : g.threads) all_done &= t->st == kDone;
    if (exiting && all_done) return;
    fatal("deadlock: every thread is blocked");
  }
  // Only affordable alternatives; free ones first (they already are).
  int m = 0;
  for (int i = 0; i < n; ++i)
    if (cost[i] <= g.budget) opts[m] = opts[i], cost[m] = cost[i], ++m;
  int c = me->yielding ? 0 : choose_raw(m);  // a spinning thread lets the others go on in turn
  g.budget -= cost[c];
  Thread* t = opts[c];
  me->yielding = false;
  if (!enabled(t) && (t->st == kCond || t->st == kChange)) {
    t->signaled = true;
    t->timed_out = t->timed;
    if (t->st == kChange) t->version = ~0ull;
  }
  if (t == me) return;
  switch_to(t);
  if (!exiting) fwait(&me->go);
}

void point() { reschedule(false); }

void block(Status st, const void* obj) {
  self->st = st;
  self->obj = obj;
  reschedule(false);
  // Resumed: the condition holds (or timed out).
  self->st = kRun;
  self->obj = nullptr;
}

// ---- memory

Cell* cell(uintptr_t key) {
  Global& g = G();
  if (g.cells.empty()) g.cells.resize(1 << 14, Cell{});
  if (g.ncells * 2 > g.cells.size()) {
    std::vector<Cell> old(g.cells.size() * 2, Cell{});
    old.swap(g.cells);
    size_t mask = g.cells.size() - 1;
    for (Cell& c : old)
      if (c.gen == g.gen) {
        size_t i = (c.key * 0x9e3779b97f4a7c15ull >> 20) & mask;
        while (g.cells[i].gen == g.gen) i = (i + 1) & mask;
        g.cells[i] = c;
      }
  }
  size_t mask = g.cells.size() - 1;
  size_t i = (key * 0x9e3779b97f4a7c15ull >> 20) & mask;
  while (g.cells[i].gen == g.gen && g.cells[i].key != key) i = (i + 1) & mask;
  Cell& c = g.cells[i];
  if (c.gen != g.gen) {
    memset(&c, 0, sizeof c);
    c.key = key;
    c.gen = g.gen;
    ++g.ncells;
  }
  return &c;
}

std::string where(uintptr_t a) {
  Global& g = G();
  auto it = g.blocks.upper_bound(a);
  if (it != g.blocks.begin()) {
    --it;
    if (a < it->first + it->second.size)
      return mc::cat("offset ", a - it->first, " of a ", it->second.size, "-byte block", it->second.freed ? " (freed)" : "");
  }
  for (Thread* t : g.threads)
    if (a >= t->stack_lo && a < t->stack_hi) return mc::cat("the stack of thread ", t->tid);
  return "static memory";
}

void access(uintptr_t a, size_t n, bool wr) {
  Global& g = G();
  Thread* t = self;
  uint32_t me = t->vc.c[t->tid];
  while (n) {
    uintptr_t key = a >> 3;
    int lo = a & 7, hi = lo + (int)n < 8 ? lo + (int)n : 8;
    Cell* c = cell(key);
    if (c->freed && !g.aborting) error(mc::cat("use after free by thread ", t->tid, ": ", where(a)));
    for (int b = lo; b < hi; ++b) {
      uint32_t w = c->w[b];
      if (w && (int)(w >> 24) != t->tid && (w & 0xffffff) > t->vc.c[w >> 24])
        error(mc::cat("data race: ", wr ? "write" : "read", " by thread ", t->tid, " and write by thread ", w >> 24, " in ", where(a)));
      if (wr) {
        for (int u = 0; u < kMaxT; ++u)
          if (u != t->tid && c->r[b][u] > t->vc.c[u])
            error(mc::cat("data race: write by thread ", t->tid, " and read by thread ", u, " in ", where(a)));
        c->w[b] = (uint32_t)t->tid << 24 | me;
      } else {
        c->r[b][t->tid] = me;
      }
    }
    if (c->has_atomic) {
      for (int b = lo; b < hi; ++b)
        for (int u = 0; u < kMaxT; ++u)
          if (u != t->tid && (c->aw[b][u] > t->vc.c[u] || (wr && c->ar[b][u] > t->vc.c[u])))
            error(mc::cat("data race: plain ", wr ? "write" : "read", " by thread ", t->tid, " and atomic access by thread ", u, " in ", where(a)));
      if (wr)  // a plain (re)initialisation ends the history
        for (int i = 0; i < 8; ++i) {
          if (!c->atomic[i]) continue;
          Atomic& at = g.atomics[c->atomic[i] - 1];
          if (i >= hi || i + at.size <= lo) continue;
          at.stores.clear();
          at.reads.clear();
          at.has_rel = false;
          at.rel = VC();
        }
    }
    n -= hi - lo;
    a += hi - lo;
  }
}

void atomic_access(Cell* c, uintptr_t a, int size, bool wr) {
  Global& g = G();
  Thread* t = self;
  if (c->freed) error(mc::cat("use after free (atomic) by thread ", t->tid, ": ", where(a)));
  for (int b = a & 7; b < 8 && b < (int)(a & 7) + size; ++b) {
    uint32_t w = c->w[b];
    if (w && (int)(w >> 24) != t->tid && (w & 0xffffff) > t->vc.c[w >> 24])
      error(mc::cat("data race: atomic access by thread ", t->tid, " and plain write by thread ", w >> 24, " in ", where(a)));
    if (wr)
      for (int u = 0; u < kMaxT; ++u)
        if (u != t->tid && c->r[b][u] > t->vc.c[u])
          error(mc::cat("data race: atomic write by thread ", t->tid, " and plain read by thread ", u, " in ", where(a)));
  }
  for (int b = a & 7; b < 8 && b < (int)(a & 7) + size; ++b) (wr ? c->aw : c->ar)[b][t->tid] = t->vc.c[t->tid];
  c->has_atomic = 1;
}

Atomic& atomic_loc(Cell* c, uintptr_t a, int size) {
  Global& g = G();
  int off = a & 7;
  if (!c->atomic[off]) {
    g.atomics.emplace_back();
    c->atomic[off] = (int)g.atomics.size();
    g.atomics.back().addr = a;
    g.atomics.back().size = size;
  }
  Atomic& at = g.atomics[c->atomic[off] - 1];
  bool mixed = at.size != size;
  at.size = size;
  for (int i = 0; i < 8; ++i)
    if (i != off && c->atomic[i]) {
      Atomic& o = g.atomics[c->atomic[i] - 1];
      if (i >= off + size || i + o.size <= off) continue;
      mixed = true;  // overlapping locations: only the latest value
      o.stores.clear();
      o.reads.clear();
      if (o.has_rel) at.rel.join(o.rel), at.has_rel = true;
    }
  if (mixed) {
    at.stores.clear();
    at.reads.clear();
  }
  return at;
}

bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void tick() { ++self->vc.c[self->tid]; }

template <class T>
T a_load(const volatile T* p, int mo) {
  if (!managed()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  Rt rt;
  Global& g = G();
  point();
  Cell* c = cell((uintptr_t)p >> 3);
  atomic_access(c, (uintptr_t)p, sizeof(T), false);
  Atomic& at = atomic_loc(c, (uintptr_t)p, sizeof(T));
  T v = *p;
  const VC* rv = at.has_rel ? &at.rel : nullptr;
  if (!at.stores.empty()) {
    int last = (int)at.stores.size() - 1, lo = 0;
    for (int i = 0; i <= last; ++i)
      if (at.stores[i].clk <= self->vc.c[at.stores[i].tid]) lo = i;
    for (auto& r : at.reads)
      if (r.clk <= self->vc.c[r.tid] && r.idx > lo) lo = r.idx;
    int pick = last;
    if (g.opt.stale && mo != __ATOMIC_SEQ_CST && lo < last && g.budget > 0) {
      int k = choose_raw(last - lo + 1);
      if (k) --g.budget;
      pick = last - k;
    }
    v = (T)at.stores[pick].val;
    rv = at.stores[pick].has_rel ? &at.stores[pick].rel : nullptr;
    at.reads.push_back({self->tid, self->vc.c[self->tid], pick});
    tick();
  }
  if (rv) {
    if (acq(mo)) self->vc.join(*rv);
    else self->acq_pending.join(*rv);
  }
  return v;
}

void note_store(Atomic& at, unsigned __int128 old, unsigned __int128 val, int mo, bool rmw) {
  Thread* t = self;
  if (at.stores.empty()) {  // the value before the first recorded store, visible to all that may see it
    Store s{};
    s.val = old;
    s.tid = 0;
    s.clk = 0;
    s.has_rel = at.has_rel;
    s.rel = at.rel;
    at.stores.push_back(s);
  }
  VC r;
  bool has = false;
  if (rel(mo)) r = t->vc, has = true;
  else if (t->has_rel_fence) r = t->rel_fence, has = true;
  if (rmw && at.has_rel) r.join(at.rel), has = true;  // release sequence
  at.rel = r;
  at.has_rel = has;
  Store s{};
  s.val = val;
  s.tid = t->tid;
  s.clk = t->vc.c[t->tid];
  s.rel = r;
  s.has_rel = has;
  at.stores.push_back(s);
  tick();
}

template <class T>
void a_store(volatile T* p, T v, int mo) {
  if (!managed()) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  Rt rt;
  point();
  Cell* c = cell((uintptr_t)p >> 3);
  atomic_access(c, (uintptr_t)p, sizeof(T), true);
  note_store(atomic_loc(c, (uintptr_t)p, sizeof(T)), *p, v, mo, false);
  *p = v;
}

template <class T, class F>
T a_rmw(volatile T* p, int mo, F f) {
  Rt rt;
  point();
  Cell* c = cell((uintptr_t)p >> 3);
  atomic_access(c, (uintptr_t)p, sizeof(T), true);
  Atomic& at = atomic_loc(c, (uintptr_t)p, sizeof(T));
  T old = *p;
  if (at.has_rel) {
    if (acq(mo)) self->vc.join(at.rel);
    else self->acq_pending.join(at.rel);
  }
  T v = f(old);
  note_store(at, old, v, mo, true);
  *p = v;
  return old;
}

template <class T>
bool a_cas(volatile T* p, T* expected, T v, int mo, int fmo, bool weak) {
  if (!managed()) return __atomic_compare_exchange_n(p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  Rt rt;
  Global& g = G();
  point();
  Cell* c = cell((uintptr_t)p >> 3);
  Atomic& at = atomic_loc(c, (uintptr_t)p, sizeof(T));
  T old = *p;
  bool ok = old == *expected;
  if (ok && weak && g.budget > 0 && choose_raw(2)) {
    --g.budget;
    ok = false;
  }
  atomic_access(c, (uintptr_t)p, sizeof(T), ok);
  int m = ok ? mo : fmo;
  if (at.has_rel) {
    if (acq(m)) self->vc.join(at.rel);
    else self->acq_pending.join(at.rel);
  }
  if (ok) {
    note_store(at, old, v, mo, true);
    *p = v;
  } else {
    *expected = old;
  }
  return ok;
}

void fence(int mo) {
  if (!managed()) return;
  Rt rt;
  point();
  Thread* t = self;
  if (acq(mo)) t->vc.join(t->acq_pending);
  if (mo == __ATOMIC_SEQ_CST) {
    t->vc.join(G().sc);
    G().sc.join(t->vc);
  }
  if (rel(mo)) t->rel_fence = t->vc, t->has_rel_fence = true;
  tick();
}

void clear_range(uintptr_t lo, uintptr_t hi) {
  Global& g = G();
  for (Cell& c : g.cells)
    if (c.gen == g.gen && c.key >= lo >> 3 && c.key < hi >> 3) {
      uintptr_t k = c.key;
      memset(&c, 0, sizeof c);
      c.key = k;
      c.gen = g.gen;
      }
}

void own_stack(Thread* t) {
  pthread_attr_t at;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void* p;
    size_t n;
    pthread_attr_getstack(&at, &p, &n);
    t->stack_lo = (uintptr_t)p;
    t->stack_hi = (uintptr_t)p + n;
    pthread_attr_destroy(&at);
  }
}

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(NAME) ([] { static auto f = real<decltype(&::NAME)>(#NAME); return f; }())

pthread_key_t end_key;
void thread_end(void* p) {
  Thread* t = (Thread*)p;
  ++in_rt;
  t->st = kDone;
  tick();
  reschedule(true);
  self = nullptr;
}

void* thread_main(void* p) {
  Thread* t = (Thread*)p;
  ++in_rt;
  self = t;
  fwait(&t->go);
  own_stack(t);
  clear_range(t->stack_lo, t->stack_hi);
  pthread_setspecific(end_key, t);
  --in_rt;
  t->ret = t->fn(t->arg);
  return t->ret;
}

void* tracked_alloc(size_t n, size_t align) {
  void* p = align > 16 ? memalign(align, n ? n : 1) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (managed()) {
    Rt rt;
    // Recycled addresses belong to earlier executions or to untracked blocks.
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t k = a >> 3; k < (a + n + 7) >> 3; ++k) {
      Cell* c = cell(k);
      uintptr_t key = c->key;
      memset(c, 0, sizeof *c);
      c->key = key;
      c->gen = G().gen;
    }
    G().blocks[a] = Block{n, false, self->tid, p};
  }
  return p;
}

void tracked_free(void* p) {
  if (!p) return;
  Global& g = G();
  if (self != nullptr && g.active) {
    Rt rt;
    auto it = g.blocks.find((uintptr_t)p);
    if (it != g.blocks.end()) {
      if (it->second.freed) {
        error(mc::cat("double free by thread ", self->tid, " of a ", it->second.size, "-byte block"));
        return;
      }
      if (in_rt == 1) access((uintptr_t)p, it->second.size, true);
      for (uintptr_t k = (uintptr_t)p >> 3; k < ((uintptr_t)p + it->second.size + 7) >> 3; ++k) cell(k)->freed = 1;
      it->second.freed = true;
      return;  // quarantined until the end of the execution
    }
  }
  free(p);
}

void begin(const Options& o) {
  Global& g = G();
  g.opt = o;
  g.active = true;
  g.aborting = g.skip = false;
  g.error.clear();
  g.log.clear();
  g.steps = g.same = 0;
  g.budget = o.bound;
  g.gen++;
  g.ncells = 0;
  g.atomics.clear();
  g.mutexes.clear();
  g.conds.clear();
  g.blocks.clear();
  g.sc = VC();
  for (Thread* t : g.threads) delete t;
  g.threads.clear();
  Thread* t = new Thread;
  t->vc.c[0] = 1;
  own_stack(t);
  g.threads.push_back(t);
  g.cur = 0;
  self = t;
}

void finish() {
  Global& g = G();
  // Let detached or forgotten threads finish.
  for (size_t i = 1; i < g.threads.size(); ++i) {
    Thread* t = g.threads[i];
    if (t->st != kDone) {
      self->join_tid = (int)i;
      block(kJoin, nullptr);
    }
    self->vc.join(t->vc);
    if (!t->joined && !t->detached) REAL(pthread_join)(t->real, nullptr);
  }
  g.active = false;
  self = nullptr;
  size_t leaked = 0, bytes = 0;
  for (auto& [a, b] : g.blocks) {
    if (b.freed) free(b.raw);
    else ++leaked, bytes += b.size;
  }
  g.blocks.clear();
  if (leaked && g.opt.leaks && g.error.empty() && !g.aborting) g.error = mc::cat(leaked, " blocks (", bytes, " bytes) were not freed");
}

void run_local(const Options& o, const std::function<void()>& body) {
  {
    Rt rt;
    begin(o);
  }
  body();
  {
    Rt rt;
    finish();
  }
}

}  // namespace

void run(const Options& o, const std::function<void()>& body) {
  Global& g = G();
  static bool once = (pthread_key_create(&end_key, thread_end), true);
  (void)once;
  auto flush_log = [](const std::vector<std::string>& log) {
    for (auto& s : log) {
      if (s[0] == 'S') { if (mc::describing()) mc::say(s.substr(1)); }
      else if (s[0] == 'O') mc::outcome(s.substr(1));
      else mc::state(s.substr(1));
    }
  };
  if (!o.forked) {
    // The first execution in a process initialises statics: run it unexplored.
    static bool warm = false;
    if (!warm) {
      warm = true;
      g.warm = true;
      run_local(o, body);
      g.warm = false;
    }
    run_local(o, body);
    if (g.skip) throw mc::Skip{};
    flush_log(g.log);
    mc::step(g.steps);
    if (!g.error.empty()) mc::fail("", g.error);
    return;
  }
  int a[2], b[2];
  if (pipe(a) || pipe(b)) abort();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(a[0]);
    close(b[1]);
    g.child_fd_out = a[1];
    g.child_fd_in = b[0];
    run_local(o, body);
    char k = 'E';
    full(a[1], &k, 1, true);
    int64_t steps = g.steps;
    full(a[1], &steps, 8, true);
    auto put = [&](const std::string& s) {
      int n = (int)s.size();
      full(a[1], &n, sizeof n, true);
      full(a[1], (void*)s.data(), n, true);
    };
    put(g.error);
    int n = (int)g.log.size();
    full(a[1], &n, sizeof n, true);
    for (auto& s : g.log) put(s);
    _exit(0);
  }
  close(a[1]);
  close(b[0]);
  auto rd = [&](void* p, size_t n) {
    char* c = (char*)p;
    while (n) {
      ssize_t k = read(a[0], c, n);
      if (k <= 0) return false;
      c += k;
      n -= k;
    }
    return true;
  };
  auto done = [&](bool kill_it) {
    close(a[0]);
    close(b[1]);
    if (kill_it) kill(pid, SIGKILL);
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
  };
  std::string err;
  std::vector<std::string> log;
  while (true) {
    char k;
    if (!rd(&k, 1)) {
      int st = done(false);
      mc::fail("", mc::cat("the process ended abnormally (status ", st, ")"));
    }
    if (k == 'C') {
      int n;
      rd(&n, sizeof n);
      int c;
      try {
        c = mc::choose(n);
      } catch (...) {
        done(true);
        throw;
      }
      if (write(b[1], &c, sizeof c) != sizeof c) abort();
    } else {
      int64_t steps;
      rd(&steps, 8);
      auto get = [&] {
        int n = 0;
        rd(&n, sizeof n);
        std::string s(n, 0);
        rd(s.data(), n);
        return s;
      };
      err = get();
      int n = 0;
      rd(&n, sizeof n);
      while (n-- > 0) log.push_back(get());
      done(false);
      mc::step(steps);
      break;
    }
  }
  flush_log(log);
  if (!err.empty()) mc::fail("", err);
}

void expect(bool cond, const std::string& msg) {
  if (cond) return;
  Rt rt;
  error(msg);
}
int choose(int n) {
  Rt rt;
  return choose_raw(n);
}
void yield() {
  if (!managed()) return;
  Rt rt;
  self->yielding = true;
  point();
}
int tid() { return self ? self->tid : -1; }
bool active() { return managed(); }
int64_t now() { return G().steps; }
Quiet::Quiet() { ++in_rt; }
Quiet::~Quiet() { --in_rt; }
void say(const std::string& s) {
  Rt rt;
  G().log.push_back("S" + s);
}
void outcome(const std::string& s) {
  Rt rt;
  if (!G().aborting) G().log.push_back("O" + s);
}
void state(const std::string& s) {
  Rt rt;
  if (!G().aborting) G().log.push_back("H" + s);
}

// ---- locks

static void got(const void* m) {
  Mutex& x = mutex(m);
  x.owner = self->tid;
  x.depth = 1;
  self->vc.join(x.wrel);
  self->vc.join(x.rrel);
}
void mu_lock(const void* m) {
  if (!managed()) return;
  Rt rt;
  point();
  if (mutex(m).owner == self->tid) fatal("deadlock: a thread locks a mutex it already holds");
  if (mutex(m).owner != -1 || mutex(m).nreaders) block(kMutex, m);
  got(m);
}
bool mu_try_lock(const void* m) {
  if (!managed()) return true;
  Rt rt;
  point();
  Mutex& x = mutex(m);
  if (x.owner != -1 || x.nreaders) return false;
  got(m);
  return true;
}
static void release(const void* m) {
  Mutex& x = mutex(m);
  if (x.owner != self->tid) error(mc::cat("thread ", self->tid, " unlocks a mutex it does not hold"));
  x.owner = -1;
  ++x.version;
  x.wrel = self->vc;
  x.rrel = VC();
  tick();
}
void mu_unlock(const void* m) {
  if (!managed()) return;
  Rt rt;
  point();
  release(m);
}
void mu_rlock(const void* m) {
  if (!managed()) return;
  Rt rt;
  point();
  if (mutex(m).owner == self->tid) fatal("deadlock: a thread locks a mutex it already holds");
  if (mutex(m).owner != -1) block(kRMutex, m);
  Mutex& x = mutex(m);
  ++x.readers[self->tid];
  ++x.nreaders;
  self->vc.join(x.wrel);
}
bool mu_try_rlock(const void* m) {
  if (!managed()) return true;
  Rt rt;
  point();
  Mutex& x = mutex(m);
  if (x.owner != -1) return false;
  ++x.readers[self->tid];
  ++x.nreaders;
  self->vc.join(x.wrel);
  return true;
}
void mu_runlock(const void* m) {
  if (!managed()) return;
  Rt rt;
  point();
  Mutex& x = mutex(m);
  if (x.readers[self->tid] == 0) error(mc::cat("thread ", self->tid, " releases a reader lock it does not hold"));
  else --x.readers[self->tid], --x.nreaders;
  ++x.version;
  x.rrel.join(self->vc);
  tick();
}
void mu_destroy(const void* m) {
  if (!managed()) return;
  Rt rt;
  auto it = G().mutexes.find(m);
  if (it == G().mutexes.end()) return;
  if (it->second.owner != -1 || it->second.nreaders) error("a locked mutex is destroyed");
  access((uintptr_t)m, 1, true);
  G().mutexes.erase(it);
}
bool mu_held(const void* m) {
  if (!managed()) return true;
  Mutex& x = mutex(m);
  return x.owner == self->tid;
}
static void wait_change(const void* m, bool timed, bool* timed_out) {
  self->version = mutex(m).version;
  self->timed = timed;
  self->timed_out = false;
  self->signaled = false;
  block(kChange, m);
  if (timed_out) *timed_out = self->timed_out;
}
void mu_unlock_wait(const void* m, bool changed, bool timed, bool* timed_out) {
  if (!managed()) return;
  Rt rt;
  point();
  release(m);
  if (!changed) --mutex(m).version;
  wait_change(m, timed, timed_out);
}
void mu_runlock_wait(const void* m, bool timed, bool* timed_out) {
  if (!managed()) return;
  Rt rt;
  point();
  Mutex& x = mutex(m);
  --x.readers[self->tid], --x.nreaders;
  x.rrel.join(self->vc);
  tick();
  wait_change(m, timed, timed_out);
}
void cv_wait(const void* c, const void* m, bool timed, bool* timed_out) {
  if (!managed()) return;
  Rt rt;
  point();
  release(m);
  self->signaled = false;
  self->timed = timed;
  self->timed_out = false;
  block(kCond, c);
  bool to = self->timed_out;
  self->timed_out = false;
  if (mutex(m).owner != -1 || mutex(m).nreaders) block(kMutex, m);
  got(m);
  if (timed_out) *timed_out = to;
}
void cv_signal(const void* c, bool all) {
  if (!managed()) return;
  Rt rt;
  point();
  std::vector<Thread*> w;
  for (Thread* t : G().threads)
    if (t->st == kCond && t->obj == c && !t->signaled) w.push_back(t);
  if (w.empty()) return;
  if (all) for (Thread* t : w) t->signaled = true;
  else w[choose_raw((int)w.size())]->signaled = true;
}

// flag: byte 0 = done, byte 1 = in progress.
bool once_enter(uint32_t* flag) {
  while (true) {
    uint8_t d = managed() ? a_load((volatile uint8_t*)flag, __ATOMIC_ACQUIRE) : *(uint8_t*)flag;
    if (d & 1) return false;
    if (!managed()) {
      *flag |= 0x100;
      return true;
    }
    Rt rt;
    point();
    if (*(volatile uint8_t*)flag & 1) continue;
    if (*flag & 0x100) {
      block(kOnce, flag);
      continue;
    }
    *flag |= 0x100;
    return true;
  }
}
void once_done(uint32_t* flag) {
  if (managed()) {
    a_store((volatile uint8_t*)flag, (uint8_t)1, __ATOMIC_RELEASE);
    Rt rt;
    *flag &= ~0x100u;
  } else {
    *flag = (*flag & ~0x100u) | 1;
  }
}
}  // namespace mcrt

using namespace mcrt;

// ---- instrumentation entry points

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N)                                                                                    \
  void __tsan_read##N(void* p) { if (managed()) { Rt rt; access((uintptr_t)p, N, false); } }      \
  void __tsan_write##N(void* p) { if (managed()) { Rt rt; access((uintptr_t)p, N, true); } }      \
  void __tsan_unaligned_read##N(void* p) { __tsan_read##N(p); }                                   \
  void __tsan_unaligned_write##N(void* p) { __tsan_write##N(p); }                                 \
  void __tsan_volatile_read##N(void* p) { __tsan_read##N(p); }                                    \
  void __tsan_volatile_write##N(void* p) { __tsan_write##N(p); }                                  \
  void __tsan_read_write##N(void* p) { __tsan_read##N(p); __tsan_write##N(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { if (managed()) { Rt rt; access((uintptr_t)p, n, false); } }
void __tsan_write_range(void* p, unsigned long n) { if (managed()) { Rt rt; access((uintptr_t)p, n, true); } }
void __tsan_vptr_update(void** p, void* v) { if (managed()) { Rt rt; access((uintptr_t)p, 8, *p != v); } }
void __tsan_vptr_read(void** p) { if (managed()) { Rt rt; access((uintptr_t)p, 8, false); } }

#define AT(B, T)                                                                                              \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load<T>(p, mo); }                         \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo); }                         \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                                 \
    if (!managed()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                       \
    return a_rmw<T>(p, mo, [&](T) { return v; });                                                             \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) {                                                \
    if (!managed()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                        \
    return a_rmw<T>(p, mo, [&](T o) { return (T)(o + v); });                                                  \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) {                                                \
    if (!managed()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                        \
    return a_rmw<T>(p, mo, [&](T o) { return (T)(o - v); });                                                  \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) {                                                \
    if (!managed()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                        \
    return a_rmw<T>(p, mo, [&](T o) { return (T)(o & v); });                                                  \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) {                                                 \
    if (!managed()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                         \
    return a_rmw<T>(p, mo, [&](T o) { return (T)(o | v); });                                                  \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) {                                                \
    if (!managed()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                        \
    return a_rmw<T>(p, mo, [&](T o) { return (T)(o ^ v); });                                                  \
  }                                                                                                           \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) {                                               \
    if (!managed()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                       \
    return a_rmw<T>(p, mo, [&](T o) { return (T) ~(o & v); });                                                \
  }                                                                                                           \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {                \
    return a_cas<T>(p, c, v, mo, fmo, false);                                                                 \
  }                                                                                                           \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {                  \
    return a_cas<T>(p, c, v, mo, fmo, true);                                                                  \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- static initialisation guards

int __cxa_guard_acquire(long long* g) { return once_enter((uint32_t*)g) ? 1 : 0; }
void __cxa_guard_release(long long* g) { once_done((uint32_t*)g); }
void __cxa_guard_abort(long long* g) { *(volatile uint32_t*)g &= ~0x100u; }

// ---- threads

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  auto rc = REAL(pthread_create);
  if (!managed()) return rc(out, attr, fn, arg);
  Rt rt;
  Global& g = G();
  point();
  if (g.threads.size() >= kMaxT) fatal("too many threads");
  Thread* t = new Thread;
  t->tid = (int)g.threads.size();
  t->fn = fn;
  t->arg = arg;
  t->vc = self->vc;
  t->vc.c[t->tid] = 1;
  tick();
  g.threads.push_back(t);
  int r = rc(&t->real, attr, thread_main, t);
  if (r != 0) fatal("pthread_create failed");
  *out = t->real;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  auto rj = REAL(pthread_join);
  if (!managed()) return rj(th, ret);
  Rt rt;
  Global& g = G();
  point();
  for (Thread* t : g.threads)
    if (t->tid && !t->joined && !t->detached && pthread_equal(t->real, th)) {
      if (t->st != kDone) {
        self->join_tid = t->tid;
        block(kJoin, t);
      }
      self->vc.join(t->vc);
      t->joined = true;
      return rj(th, ret);
    }
  error("join of a thread that is not joinable");
  return ESRCH;
}
int pthread_detach(pthread_t th) {
  auto rd = REAL(pthread_detach);
  if (!managed()) return rd(th);
  Rt rt;
  point();
  for (Thread* t : G().threads)
    if (t->tid && !t->joined && !t->detached && pthread_equal(t->real, th)) {
      t->detached = true;
      return rd(th);
    }
  error("detach of a thread that is not joinable");
  return ESRCH;
}
int sched_yield() {
  mcrt::yield();
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  if (!managed()) return REAL(nanosleep)(a, b);
  mcrt::yield();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  if (!managed()) return REAL(clock_nanosleep)(c, f, a, b);
  mcrt::yield();
  return 0;
}
int usleep(useconds_t u) {
  if (!managed()) return REAL(usleep)(u);
  mcrt::yield();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) return in_rt || !self ? REAL(pthread_mutex_lock)(m) : 0;
  if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    Rt rt;
    Mutex& x = mutex(m);
    if (x.owner == self->tid) {
      ++x.depth;
      return 0;
    }
  }
  mu_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_trylock)(m);
  return mu_try_lock(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_unlock)(m);
  {
    Rt rt;
    Mutex& x = mutex(m);
    if (x.owner == self->tid && x.depth > 1) {
      --x.depth;
      return 0;
    }
  }
  mu_unlock(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (managed()) mu_destroy(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!managed()) return REAL(pthread_rwlock_rdlock)(m);
  mu_rlock(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!managed()) return REAL(pthread_rwlock_wrlock)(m);
  mu_lock(m);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!managed()) return REAL(pthread_rwlock_unlock)(m);
  if (mu_held(m)) mu_unlock(m);
  else mu_runlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_cond_wait)(c, m);
  cv_wait(c, m, false, nullptr);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_timedwait)(c, m, t);
  bool to = false;
  cv_wait(c, m, true, &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, t);
  bool to = false;
  cv_wait(c, m, true, &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_signal)(c);
  cv_signal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_broadcast)(c);
  cv_signal(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  // Byte 2 marks completion for glibc as well (value 2).
  if (!managed()) return REAL(pthread_once)(o, f);
  static_assert(sizeof(*o) == 4);
  uint32_t* fl;
  {
    Rt rt;
    static std::map<void*, uint32_t>* flags = new std::map<void*, uint32_t>;
    fl = &(*flags)[o];
    if (*o == 2) *fl = 1;
  }
  if (once_enter(fl)) {
    f();
    *(volatile int*)o = 2;
    once_done(fl);
  }
  return 0;
}

// ---- memory functions (the compiler does not instrument them)

static inline void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (n && managed()) {
    Rt rt;
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
  }
  raw_copy(d, s, n);
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
  if (n && managed()) {
    Rt rt;
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
  }
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    raw_copy(d, s, n);
  } else {
    volatile char* dd = (char*)d;
    const char* ss = (const char*)s;
    while (n--) dd[n] = ss[n];
  }
  return d;
}
void* memset(void* d, int v, size_t n) {
  if (n && managed()) {
    Rt rt;
    access((uintptr_t)d, n, true);
  }
  void* p = d;
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory");
  return d;
}
}  // extern "C"

void* operator new(size_t n) { return tracked_alloc(n, 0); }
void* operator new[](size_t n) { return tracked_alloc(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return tracked_alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return tracked_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return tracked_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return tracked_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { tracked_free(p); }
void operator delete[](void* p) noexcept { tracked_free(p); }
void operator delete(void* p, size_t) noexcept { tracked_free(p); }
void operator delete[](void* p, size_t) noexcept { tracked_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { tracked_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { tracked_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { tracked_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { tracked_free(p); }
