// Shared ownership under every schedule and every history of pointer operations.
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
#include "arolla/util/thread_safe_shared_ptr.h"
#include "mc.h"
#include "mcrt.h"

namespace {

using arolla::Refcount;
using arolla::RefcountedBase;
using arolla::RefcountPtr;
using arolla::ThreadSafeSharedPtr;

int Bound(int quick, int deep) { return mc::tier(quick, deep); }

// ---- Refcount

struct Payload {
  Refcount rc;
  int slot[4] = {};
  explicit Payload(int n) : rc(Refcount::TestOnly{}, n) {}
  Payload() = default;
};

// What a thread that owns one reference does before it is gone.
// d: decrement, s: skewed decrement, i: increment, w: write own slot, r: read own slot
const char* const kPrograms[] = {"wd", "ws", "iwds", "iswd", "wisrs", "d", "s", "iidsd", "idwd"};

void RunProgram(Payload* p, const char* prog, int me, std::atomic<int>* last, int want_writes) {
  for (const char* c = prog; *c; ++c) {
    bool alive = true;
    switch (*c) {
      case 'w': p->slot[me] = me + 1; break;
      case 'r': (void)*(volatile int*)&p->slot[me]; break;
      case 'i': p->rc.increment(); break;
      case 'd': alive = p->rc.decrement(); break;
      case 's': alive = p->rc.skewed_decrement(); break;
    }
    if (!alive) {
      mcrt::expect(c[1] == 0, "a reference count dropped to zero while references remain");
      last->fetch_add(1, std::memory_order_relaxed);
      for (int i = 0; i < 4; ++i)
        if (want_writes >> i & 1) mcrt::expect(p->slot[i] == i + 1, "the last owner does not see a write made by another owner");
      delete p;
      return;
    }
  }
}

MC_HARNESS(refcount_owners) {
  int nt = mc::range(2, 3);
  int np = nt == 2 ? 9 : mc::tier(3, 5);
  std::vector<const char*> prog;
  int writes = 0;
  for (int i = 0; i < nt; ++i) {
    prog.push_back(kPrograms[mc::choose(np)]);
    if (i && prog[i] < prog[i - 1]) { /* symmetric */ }
    if (strchr(prog[i], 'w')) writes |= 1 << i;
    MC_SAY("thread " << i << ": " << prog[i]);
  }
  mc::state(mc::cat(nt, prog[0], ",", prog[1], ",", nt > 2 ? prog[2] : ""));
  mcrt::Options o;
  o.bound = nt == 2 ? Bound(4, 8) : Bound(2, 4);
  mcrt::run(o, [&] {
    auto* p = new Payload(nt);
    std::atomic<int> last{0};
    std::vector<std::thread> ts;
    for (int i = 1; i < nt; ++i) ts.emplace_back([&, i] { RunProgram(p, prog[i], i, &last, writes); });
    RunProgram(p, prog[0], 0, &last, writes);
    for (auto& t : ts) t.join();
    mcrt::expect(last.load() == 1, "the object was released " + std::to_string(last.load()) + " times");
  });
}

// ---- RefcountPtr: concurrent owners

struct Shared : RefcountedBase {
  int slot[4] = {};
  int mask;
  std::atomic<int>* gone;
  Shared(int mask, std::atomic<int>* gone) : mask(mask), gone(gone) {}
  ~Shared() {
    for (int i = 0; i < 4; ++i)
      if (mask >> i & 1) mcrt::expect(slot[i] == i + 1, "the destructor does not see a write made by another owner");
    gone->fetch_add(1, std::memory_order_relaxed);
  }
};

// Each thread owns `p` (its own pointer object) and `q` (null).
void PtrProgram(RefcountPtr<Shared> p, const char* prog, int me) {
  RefcountPtr<Shared> q;
  for (const char* c = prog; *c; ++c) switch (*c) {
    case 'w': p->slot[me] = me + 1; break;
    case 'c': q = p; break;
    case 'm': q = std::move(p); break;
    case 'b': p = q; break;
    case 'x': swap(p, q); break;
    case 'z': q.reset(); break;
    case 'y': p.reset(); break;
    case 'n': q = RefcountPtr<Shared>::NewRef(p.get()); break;
    case 't': { RefcountPtr<Shared> t(p); t->slot[me] = me + 1; break; }
  }
}
const char* const kPtrPrograms[] = {"w", "cw", "tm", "wcy", "nwzy", "wxz", "wcxzb"};

MC_HARNESS(ptr_owners) {
  int nt = mc::range(2, 3);
  int np = nt == 2 ? 7 : mc::tier(3, 5);
  std::vector<const char*> prog;
  int mask = 0;
  for (int i = 0; i < nt; ++i) {
    prog.push_back(kPtrPrograms[mc::choose(np)]);
    mask |= 1 << i;
    MC_SAY("thread " << i << ": " << prog[i]);
  }
  mc::state(mc::cat("p", nt, prog[0], ",", prog[1], ",", nt > 2 ? prog[2] : ""));
  mcrt::Options o;
  o.bound = nt == 2 ? Bound(3, 6) : Bound(2, 3);
  mcrt::run(o, [&] {
    std::atomic<int> gone{0};
    {
      auto p = RefcountPtr<Shared>::Make(mask, &gone);
      std::vector<std::thread> ts;
      for (int i = 1; i < nt; ++i) ts.emplace_back(PtrProgram, p, prog[i], i);
      PtrProgram(std::move(p), prog[0], 0);
      for (auto& t : ts) t.join();
    }
    mcrt::expect(gone.load() == 1, "the object was destroyed " + std::to_string(gone.load()) + " times");
  });
}

// A const pointer shared by reference is copied by several threads at once.
MC_HARNESS(ptr_shared_copy) {
  int nt = mc::range(2, 3);
  mcrt::Options o;
  o.bound = nt == 2 ? Bound(4, 7) : Bound(2, 4);
  mcrt::run(o, [&] {
    std::atomic<int> gone{0};
    {
      const auto p = RefcountPtr<Shared>::Make(0, &gone);
      std::vector<std::thread> ts;
      for (int i = 1; i < nt; ++i) ts.emplace_back([&p] {
          RefcountPtr<Shared> q = p;
          mcrt::expect(q == p && q->mask == 0, "copy differs");
        });
      {
        RefcountPtr<Shared> q = p, r = q;
        mcrt::expect(r.get() == p.get(), "copy differs");
      }
      for (auto& t : ts) t.join();
      mcrt::expect(gone.load() == 0, "destroyed while referenced");
    }
    mcrt::expect(gone.load() == 1, "not destroyed");
  });
}

// ---- ThreadSafeSharedPtr: linearizable register

struct Val {
  int v;
  ThreadSafeSharedPtr<Val>* watch = nullptr;  // the destructor uses the register
  explicit Val(int v) : v(v) {}
  ~Val() {
    if (watch) {
      auto p = watch->load();
      mcrt::expect(p == nullptr || p.get() != this, "a register returned an object that is being destroyed");
    }
    v = -1;
  }
};
struct Op {
  int kind;  // 0 load, 1 store, 2 store null, 3 == nullptr, 4 != nullptr
  int arg, result;
  int64_t call, ret;
};

bool Linearizable(const std::vector<Op>& ops, int init) {
  int n = (int)ops.size();
  std::vector<int> done(n, 0);
  std::function<bool(int, int)> rec = [&](int left, int state) {
    if (left == 0) return true;
    for (int i = 0; i < n; ++i) {
      if (done[i]) continue;
      bool first = true;
      for (int j = 0; j < n; ++j)
        if (!done[j] && j != i && ops[j].ret < ops[i].call) first = false;
      if (!first) continue;
      int next = state;
      bool ok = true;
      switch (ops[i].kind) {
        case 0: ok = ops[i].result == state; break;
        case 1: case 2: next = ops[i].arg; break;
        case 3: ok = ops[i].result == (state == 0); break;
        case 4: ok = ops[i].result == (state != 0); break;
      }
      if (!ok) continue;
      done[i] = 1;
      if (rec(left - 1, next)) return true;
      done[i] = 0;
    }
    return false;
  };
  return rec(n, init);
}

const char* const kRegPrograms[] = {"ls", "sl", "sn", "el", "ns", "ss", "ll", "ne"};

MC_HARNESS(shared_register) {
  int nt = mc::range(2, 3);
  bool watch = mc::flag();
  int init = mc::choose(2);
  int np = nt == 2 ? 8 : mc::tier(2, 4);
  std::vector<const char*> prog;
  for (int i = 0; i < nt; ++i) {
    prog.push_back(kRegPrograms[mc::choose(np)]);
    MC_SAY("thread " << i << ": " << prog[i]);
  }
  mc::state(mc::cat("r", nt, watch, init, prog[0], prog[1], nt > 2 ? prog[2] : ""));
  mcrt::Options o;
  o.bound = nt == 2 ? Bound(2, 4) : Bound(1, 2);
  std::vector<Op> ops;
  mcrt::run(o, [&] {
    ops.clear();
    {
      ThreadSafeSharedPtr<Val> reg_null;
      ThreadSafeSharedPtr<Val> reg_one(init ? std::make_shared<Val>(1) : nullptr);
      ThreadSafeSharedPtr<Val>& reg = init ? reg_one : reg_null;
      auto body = [&](int me) {
        int k = 0;
        for (const char* c = prog[me]; *c; ++c, ++k) {
          Op op{0, 0, 0, mcrt::now(), 0};
          if (*c == 'l') {
            auto p = reg.load();
            op.result = p ? p->v : 0;
            op.ret = mcrt::now();
            p.reset();
          } else if (*c == 's') {
            op.kind = 1;
            op.arg = 10 * (me + 1) + k;
            auto p = std::make_shared<Val>(op.arg);
            if (watch) p->watch = &reg;
            op.call = mcrt::now();
            reg.store(std::move(p));
            op.ret = mcrt::now();
          } else if (*c == 'n') {
            op.kind = 2;
            reg.store(nullptr);
            op.ret = mcrt::now();
          } else {
            op.kind = 3 + (me & 1);
            op.result = op.kind == 3 ? reg == nullptr : reg != nullptr;
            op.ret = mcrt::now();
          }
          mcrt::Quiet q;
          ops.push_back(op);
        }
      };
      std::vector<std::thread> ts;
      for (int i = 1; i < nt; ++i) ts.emplace_back(body, i);
      body(0);
      for (auto& t : ts) t.join();
      auto p = reg.load();
      if (p) p->watch = nullptr;
      mcrt::Quiet q;
      ops.push_back(Op{0, 0, p ? p->v : 0, mcrt::now() + 1, mcrt::now() + 2});
    }
    mcrt::Quiet q;
    std::string h;
    for (auto& x : ops) h += mc::cat("[", x.call, ",", x.ret, "] ", "ls0=!"[x.kind], x.kind == 1 ? x.arg : x.result, " ");
    mcrt::expect(Linearizable(ops, init), "not linearizable: " + h);
  });
}

}  // namespace

MC_MAIN()
