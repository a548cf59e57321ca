// Cancellation contexts, subscriptions and scopes: every history of one thread.
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "arolla/util/cancellation.h"
#include "mc.h"

namespace {

using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using arolla::CheckCancellation;
using arolla::CurrentCancellationContext;
using Guard = CancellationContext::ScopeGuard;
using Subscription = CancellationContext::Subscription;

absl::Status Error(const std::string& m) { return absl::InvalidArgumentError(m); }

// Callbacks run in noexcept functions: the first failure is raised at the end.
std::string failure;
#define EXPECT(cond, msg)                            \
  do {                                               \
    mc::step();                                      \
    if (!(cond) && failure.empty()) failure = (msg); \
  } while (0)
void Done() {
  if (!failure.empty()) {
    mc::Violation v{"", failure};
    failure.clear();
    throw v;
  }
}

// ---- Histories of one thread

// What a callback does besides being counted.
enum { kPlain, kCancelAgain, kReadStatus, kSubscribe, kKinds };

MC_HARNESS(cancel_history) {
  int len = mc::tier(5, 7);
  {
    int log[16] = {}, alive[16] = {};
    int n = 0;
    struct Cb {
      int id;
      int* alive;
      std::function<void()> f;
      bool own = true;
      Cb(int id, int* alive, std::function<void()> f) : id(id), alive(alive), f(std::move(f)) { ++alive[id]; }
      Cb(Cb&& o) noexcept : id(o.id), alive(o.alive), f(std::move(o.f)), own(std::exchange(o.own, false)) {}
      ~Cb() { if (own) --alive[id]; }
      void operator()() && { f(); }
    };
    auto ctx = CancellationContext::Make();
    CancellationContext* raw = ctx.get();
    // The model: a handle refers to a subscription or to nothing.
    int refers[2] = {-1, -1};
    int kind_of[16] = {};
    bool cancelled = false, unsubscribed[16] = {};
    std::string status;
    {
      Subscription h[2];
      auto check = [&](const char* when) {
        EXPECT(raw->Cancelled() == cancelled, mc::cat("wrong flag after ", when));
        absl::Status st = raw->GetStatus();
        EXPECT(st.ok() == !cancelled && std::string(st.message()) == status, mc::cat("wrong status after ", when, ": ", st.ToString()));
        for (int i = 0; i < n; ++i) {
          int want = cancelled && !unsubscribed[i];
          EXPECT(log[i] == want, mc::cat("callback ", i, " ran ", log[i], " times, expected ", want, " after ", when));
          int live = !cancelled && !unsubscribed[i];
          EXPECT(alive[i] == live, mc::cat("callback ", i, (live ? " is released" : " is not released"), " after ", when));
        }
      };
      auto drop = [&](int i) {
        if (refers[i] >= 0 && !cancelled) unsubscribed[refers[i]] = true;
        refers[i] = -1;
      };
      for (int step = 0; step < len; ++step) {
        int op = mc::choose(10);
        if (op == 0) break;
        switch (op) {
          case 1: case 2: {  // subscribe into handle 0 / 1
            if (n >= 3) { step = len; break; }
            int i = op - 1, id = n++;
            int kind = kind_of[id] = mc::choose(cancelled ? 2 : kKinds);
            MC_SAY(mc::cat("subscribe ", id, " of kind ", kind, " into handle ", i));
            auto f = [&, id, kind] {
              ++log[id];
              EXPECT(raw->Cancelled(), "a callback runs while the context is not cancelled");
              if (kind == kCancelAgain) raw->Cancel(Error("again"));
              if (kind == kReadStatus) EXPECT(!raw->GetStatus().ok(), "status is OK in a callback");
              if (kind == kSubscribe) {
                int nested = 0;
                raw->Subscribe([&nested] { ++nested; }).Detach();
                EXPECT(nested == 1, "a callback subscribed from a callback did not run");
              }
            };
            // Move assignment hands the old subscription to the temporary, which drops it.
            int old = refers[i];
            h[i] = raw->Subscribe(Cb(id, alive, f));
            if (old >= 0 && !cancelled) unsubscribed[old] = true;
            refers[i] = cancelled ? -1 : id;
            check("subscribe");
            break;
          }
          case 3: case 4: {
            int i = op - 3;
            if (refers[i] < 0) { step = len; break; }
            MC_SAY(mc::cat("drop handle ", i));
            { Subscription gone = std::move(h[i]); }
            drop(i);
            check("drop");
            break;
          }
          case 5: case 6: {
            int i = op - 5;
            if (refers[i] < 0) { step = len; break; }
            MC_SAY(mc::cat("detach handle ", i));
            std::move(h[i]).Detach();
            refers[i] = -1;
            check("detach");
            break;
          }
          case 7: {
            MC_SAY("move handle 0 over handle 1");
            {
              Subscription t = std::move(h[0]);
              // The temporary ends up with what handle 1 referred to.
              h[1] = std::move(t);
            }
            drop(1);
            refers[1] = refers[0];
            refers[0] = -1;
            check("move");
            break;
          }
          case 8: case 9: {
            std::string m = op == 8 ? "one" : "cancelled";
            MC_SAY("cancel " + m);
            if (op == 8) raw->Cancel(Error(m)); else raw->Cancel();
            if (!cancelled) status = m;
            cancelled = true;
            check("cancel");
            break;
          }
        }
      }
      if (mc::choose(2)) {
        MC_SAY("the handles outlive the creator's reference");
        bool kept = refers[0] >= 0 || refers[1] >= 0;
        ctx = nullptr;
        if (kept) check("releasing the reference");
      }
    }
    ctx = nullptr;
    for (int i = 0; i < n; ++i) {
      EXPECT(alive[i] == 0, "a callback outlives the context");
      EXPECT(log[i] == (cancelled && !unsubscribed[i]), "a callback ran during destruction");
    }
    Done();
    mc::state(mc::cat(n, cancelled, unsubscribed[0], unsubscribed[1], unsubscribed[2], refers[0], refers[1]));
  }
}

// ---- Scopes

// Every nesting of scopes, cancellations in between; another thread has its own scopes.
MC_HARNESS(cancel_scopes) {
  int budget = mc::tier(5, 6);  // scopes and cancellations
  {
    CancellationContextPtr ctx[2] = {CancellationContext::Make(), CancellationContext::Make()};
    bool cancelled[2] = {};
    int left = budget;
    std::vector<int> stack;  // 0, 1: context, 2: none, 3: a fresh one
    std::vector<bool> fresh_cancelled;
    auto check = [&](const char* when) {
      int top = stack.empty() ? 2 : stack.back();
      auto* cur = Guard::current_cancellation_context();
      bool want = false;
      if (top < 2) {
        EXPECT(cur == ctx[top].get(), mc::cat("wrong current context ", when));
        want = cancelled[top];
      } else if (top == 2) {
        EXPECT(cur == nullptr, mc::cat("a context is current ", when));
      } else {
        EXPECT(cur != nullptr && cur != ctx[0].get() && cur != ctx[1].get(), mc::cat("wrong fresh context ", when));
        want = fresh_cancelled.back();
      }
      EXPECT(CurrentCancellationContext().get() == cur, "the owning accessor differs");
      EXPECT(arolla::Cancelled() == want, mc::cat("wrong Cancelled() ", when));
      EXPECT(CheckCancellation().ok() == !want, mc::cat("wrong CheckCancellation() ", when));
      if (want && top < 2)
        EXPECT(CheckCancellation().message() == (top ? "one" : "zero"), "CheckCancellation() returns another context's status");
    };
    std::function<void()> scope = [&] {
      for (;;) {
        if (left == 0) return;
        int op = mc::choose(6);
        if (op == 0) return;
        --left;
        if (op == 5) {
          int which = mc::choose(3);
          if (which == 2) {
            if (auto* c = Guard::current_cancellation_context()) {
              c->Cancel(Error(c == ctx[0].get() ? "zero" : c == ctx[1].get() ? "one" : "fresh"));
              int top = stack.back();
              if (top < 2) cancelled[top] = true;
              else fresh_cancelled.back() = true;
            }
          } else {
            ctx[which]->Cancel(Error(which ? "one" : "zero"));
            cancelled[which] = true;
          }
          check("after a cancellation");
          continue;
        }
        int kind = op - 1;
        {
          std::optional<Guard> g;
          if (kind < 2) g.emplace(ctx[kind]);
          else if (kind == 2) g.emplace(nullptr);
          else g.emplace();
          stack.push_back(kind);
          fresh_cancelled.push_back(false);
          EXPECT(g->cancellation_context() == Guard::current_cancellation_context(), "the guard's context is not current");
          check("in a new scope");
          scope();
          stack.pop_back();
          fresh_cancelled.pop_back();
        }
        check("after a scope");
      }
    };
    check("at first");
    scope();
    EXPECT(Guard::current_cancellation_context() == nullptr, "a context is left behind");
    Done();
    mc::state(mc::cat(cancelled[0], cancelled[1], left));
  }
}

}  // namespace

MC_MAIN()
