// Shared ownership: every history of one thread (under AddressSanitizer).
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
#include "mc.h"

namespace {

using arolla::Refcount;
using arolla::RefcountedBase;
using arolla::RefcountPtr;

// Sequential: the answers for every count and operation sequence.
MC_HARNESS(refcount_sequence) {
  int n = mc::range(0, 3);  // 0: default constructor
  auto rc = n == 0 ? std::make_unique<Refcount>() : std::make_unique<Refcount>(Refcount::TestOnly{}, n);
  int count = n == 0 ? 1 : n;
  int len = mc::range(1, mc::tier(6, 8));
  std::string h = std::to_string(n);
  for (int i = 0; i < len; ++i) {
    int op = mc::choose(3);
    h += "ids"[op];
    mc::step();
    if (op == 0) {
      rc->increment();
      ++count;
    } else {
      bool alive = op == 1 ? rc->decrement() : rc->skewed_decrement();
      --count;
      MC_EQ(alive, count != 0, "history " << h);
      if (!alive) break;
    }
  }
  mc::state(h);
}

// ---- RefcountPtr: histories of one thread

struct Node : RefcountedBase {
  static inline int alive = 0;
  static inline int destroyed = 0;
  static inline std::function<void(Node*)> on_destroy;
  int id;
  int magic = 0x5afe;
  RefcountPtr<Node> next;
  explicit Node(int id) : id(id) { ++alive; }
  virtual ~Node() {
    if (magic != 0x5afe) abort();
    if (on_destroy) on_destroy(this);
    magic = 0;
    --alive;
    ++destroyed;
  }
};
struct Sub : Node {
  int extra[4] = {1, 2, 3, 4};
  using Node::Node;
};

MC_HARNESS(ptr_history) {
  const int kVars = mc::tier(2, 3);
  Node::alive = Node::destroyed = 0;
  int created = 0;
  std::string h;
  {
    RefcountPtr<Node> v[3];
    // Optionally the destructor of a node drops variable 0 again.
    bool reentrant = mc::flag();
    if (reentrant) Node::on_destroy = [&](Node*) { v[0].reset(); };
    else Node::on_destroy = nullptr;
    int len = 4;
    for (int step = 0; step < len; ++step) {
      int op = mc::choose(11);
      int i = mc::choose(kVars);
      Node* before[3];
      for (int k = 0; k < kVars; ++k) before[k] = v[k].get();
      int j = 0;
      auto second = [&] { return mc::choose(kVars); };
      switch (op) {
        case 0: v[i] = RefcountPtr<Node>::Make(++created); break;
        case 1: v[i] = RefcountPtr<Node>::Make<Sub>(++created); break;
        case 2: v[i] = RefcountPtr<Node>::Own(std::make_unique<Node>(++created)); break;
        case 3: v[i].reset(); break;
        case 4: j = second(); v[i] = v[j]; break;
        case 5: j = second(); v[i] = std::move(v[j]); break;
        case 6: j = second(); swap(v[i], v[j]); break;
        case 7: j = second(); v[i] = RefcountPtr<Node>::NewRef(v[j].get()); break;
        case 8:  // link; cycles are excluded, they would leak by design
          j = second();
          if (v[i] == nullptr) mc::abandon();
          for (Node* n = v[j].get(); n; n = n->next.get()) if (n == v[i].get()) mc::abandon();
          v[i]->next = v[j];
          break;
        case 9:
          if (v[i] == nullptr) mc::abandon();
          v[i] = v[i]->next;
          break;
        case 10: {
          j = second();
          RefcountPtr<Node> a(v[j]), b(std::move(a));
          MC_EQ(a.get() == nullptr, true, "moved-from copy");
          MC_EQ(b.get(), v[j].get(), "");
          RefcountPtr<Node> c(nullptr);
          c = b;
          MC_EQ(c == b, true, "");
          MC_EQ(c == v[j], true, "");
          v[i] = c;
          break;
        }
      }
      mc::step();
      h += mc::cat(op, i, j, " ");
      if (!reentrant) {
        if (op == 4 || op == 7 || op == 10) MC_EQ(v[i].get(), before[j], h);
        if (op == 5 && i != j) MC_EQ(v[i].get(), before[j], h);
        if (op == 3) MC_EQ(v[i].get() == nullptr, true, h);
        if (op == 6) { MC_EQ(v[i].get(), before[j], h); MC_EQ(v[j].get(), before[i], h); }
        if (op <= 2) MC_EQ(v[i]->id, created, h);
      }
      // Alive are exactly the nodes reachable from the variables (a moved-from
      // variable may keep or drop its old value).
      std::vector<Node*> seen;
      for (auto& p : v) {
        MC_EQ(p == nullptr, p.get() == nullptr, h);
        for (Node* n = p.get(); n; n = n->next.get()) {
          MC_EQ(n->magic, 0x5afe, h);
          if (std::find(seen.begin(), seen.end(), n) == seen.end()) seen.push_back(n);
        }
      }
      MC_EQ(Node::alive, (int)seen.size(), "nodes alive after " << h);
      MC_EQ(Node::alive + Node::destroyed, created, h);
    }
    mc::state(mc::cat(reentrant, h));
    Node::on_destroy = nullptr;
  }
  MC_EQ(Node::alive, 0, "after all pointers are gone: " << h);
  MC_EQ(Node::destroyed, created, h);
}

}  // namespace

MC_MAIN()
