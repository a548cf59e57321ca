// Cancellation contexts and permanent events under every schedule.
#include <atomic>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "arolla/util/cancellation.h"
#include "arolla/util/permanent_event.h"
#include "mc.h"
#include "mcrt.h"

namespace {

using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using arolla::CheckCancellation;
using arolla::CurrentCancellationContext;
using arolla::PermanentEvent;
using Guard = CancellationContext::ScopeGuard;
using Subscription = CancellationContext::Subscription;

// ---- Concurrent cancellation, subscription and release

constexpr int64_t kNever = int64_t{1} << 60;

// What happened to one subscription. Bookkeeping, except for `runs`.
struct Sub {
  int runs = 0;  // plain: two concurrent invocations are a race
  int alive = 0;
  int64_t begin = kNever, end = kNever, dropping = kNever, dropped = kNever;
  bool alive_after_drop = false, ran_inline = false;
};

// A callback with an observable lifetime.
struct Callback {
  Sub* s;
  int* data;  // heap memory that a released callback must not touch
  explicit Callback(Sub* s) : s(s), data(new int(0)) { ++s->alive; }
  Callback(Callback&& o) noexcept : s(o.s), data(std::exchange(o.data, nullptr)) {}
  ~Callback() {
    if (data == nullptr) return;
    delete data;
    mcrt::Quiet q;
    --s->alive;
  }
  void operator()() && {
    mcrt::expect(data != nullptr, "a released callback is invoked");
    if (data == nullptr) return;
    ++*data;
    ++s->runs;
  }
};

struct CancelCall {
  std::string msg;
  int64_t begin = kNever, end = kNever;
  std::vector<int> runs, alive;  // of all subscriptions when the call returned
};

absl::Status Error(const std::string& m) { return absl::InvalidArgumentError(m); }

// c: cancel, d: subscribe and detach, s: subscribe, x: drop the handle,
// g: read the status, q: read the flag, then the status, o: forget the context
const char* const kPrograms[] = {"c", "sx", "d", "s", "cq", "qdq", "x", "dc", "sgx", "sc", "cd", "sdx", "gqc", "ocx", "ssxx", "xsc"};

MC_HARNESS(cancel_concurrent) {
  int nt = mc::range(2, 3);
  int np = nt == 2 ? 16 : mc::tier(6, 10);
  std::vector<const char*> prog;
  std::vector<int> pi;
  bool any_c = false;
  for (int i = 0; i < nt; ++i) {
    int p = mc::choose(np);
    prog.push_back(kPrograms[p]);
    pi.push_back(p);
    if (i && pi[i] < pi[i - 1]) mc::abandon();  // threads are symmetric
    any_c |= strchr(prog[i], 'c') != nullptr;
    MC_SAY("thread " << i << ": " << prog[i]);
  }
  bool early = mc::flag();  // the creator gives its reference up at once
  MC_SAY("creator keeps its reference: " << !early);
  mc::state(mc::cat(nt, prog[0], ",", prog[1], ",", nt > 2 ? prog[2] : "", early));
  mcrt::Options o;
  o.bound = nt == 2 ? mc::tier(2, 4) : mc::tier(1, 2);
  mcrt::run(o, [&] {
    // Every thread starts with a handle subscribed by the creator.
    std::vector<Sub> subs(nt * 4);
    std::vector<CancelCall> calls(nt);
    std::vector<absl::Status> seen[3];
    auto snapshot = [&](CancelCall& c) {
      mcrt::Quiet q;
      for (auto& s : subs) c.runs.push_back(s.runs), c.alive.push_back(s.alive);
    };
    {
      auto ctx = CancellationContext::Make();
      std::vector<std::vector<Subscription>> handle(nt);
      std::vector<std::vector<Sub*>> handle_sub(nt);
      for (int i = 0; i < nt; ++i) {
        subs[i * 4].begin = subs[i * 4].end = 0;
        handle[i].push_back(ctx->Subscribe(Callback(&subs[i * 4])));
        handle_sub[i].push_back(&subs[i * 4]);
      }
      auto body = [&](int me, CancellationContextPtr ctx) {
        int next = me * 4 + 1;
        bool cancelled = false;
        CancellationContext* raw = ctx.get();
        for (const char* c = prog[me]; *c; ++c) switch (*c) {
            case 'c': {
              CancelCall& call = calls[me];
              call.msg = std::string("by ") + char('0' + me);
              call.begin = mcrt::now();
              ctx->Cancel(Error(call.msg));
              call.end = mcrt::now();
              snapshot(call);
              cancelled = true;
              mcrt::expect(ctx->Cancelled(), "not cancelled right after Cancel()");
              break;
            }
            case 's':
            case 'd': {
              Sub* s = &subs[next++];
              s->begin = mcrt::now();
              Subscription h = ctx->Subscribe(Callback(s));
              s->end = mcrt::now();
              {
                mcrt::Quiet q;
                s->ran_inline = s->runs == 1;
              }
              if (*c == 'd') {
                std::move(h).Detach();
              } else {
                handle[me].push_back(std::move(h));
                handle_sub[me].push_back(s);
              }
              break;
            }
            case 'x': {
              Sub* s = handle_sub[me].back();
              s->dropping = mcrt::now();
              handle[me].pop_back();
              handle_sub[me].pop_back();
              s->dropped = mcrt::now();
              mcrt::Quiet q;
              s->alive_after_drop = s->alive != 0;
              break;
            }
            case 'g': seen[me].push_back(ctx->GetStatus()); break;
            case 'q':
              if (ctx->Cancelled()) {
                seen[me].push_back(ctx->GetStatus());
                mcrt::expect(!seen[me].back().ok(), "cancelled, but the status is OK");
                cancelled = true;
              } else {
                mcrt::expect(!cancelled, "a context is no longer cancelled");
              }
              break;
            case 'o':
              // Other references keep the context alive: the own handle owns one.
              ctx = CancellationContextPtr::NewRef(raw);
              break;
          }
      };
      {
        std::vector<std::thread> ts;
        for (int i = 1; i < nt; ++i) ts.emplace_back(body, i, ctx);
        if (early) {
          auto own = std::move(ctx);
          ctx = nullptr;
          body(0, std::move(own));
        } else {
          body(0, ctx);
        }
        for (auto& t : ts) t.join();
      }
      if (ctx != nullptr) {
        seen[0].push_back(ctx->GetStatus());
        mcrt::expect(seen[0].back().ok() == !any_c, "wrong final status");
        mcrt::expect(ctx->Cancelled() == any_c, "wrong final flag");
        for (auto& s : subs)
          if (s.end != kNever && s.dropped == kNever)
            mcrt::expect(any_c ? s.runs == 1 && s.alive == 0 : s.runs == 0 && s.alive == 1, mc::cat("subscription ran ", s.runs, " times"));
      }
      // The handles left go away with the threads' data.
    }
    const CancelCall* winner = nullptr;
    std::string won;
    for (auto& v : seen) {
      bool before = false;
      for (auto& st : v) {
        if (st.ok()) {
          mcrt::expect(!before, "the status returned to OK");
          continue;
        }
        before = true;
        std::string m(st.message());
        mcrt::expect(won.empty() || won == m, "the status changed from " + won + " to " + m);
        mcrt::expect(st.code() == absl::StatusCode::kInvalidArgument, "wrong status code");
        won = m;
        for (auto& c : calls)
          if (c.msg == m) winner = &c;
        mcrt::expect(winner != nullptr, "status " + m + " was never passed to Cancel");
      }
    }
    int64_t first_begin = kNever, first_end = kNever;
    for (auto& c : calls) first_begin = std::min(first_begin, c.begin), first_end = std::min(first_end, c.end);
    if (winner) for (auto& c : calls) mcrt::expect(c.msg.empty() || c.end >= winner->begin, "a later Cancel() overrode an earlier one");
    for (size_t i = 0; i < subs.size(); ++i) {
      auto& s = subs[i];
      if (s.end == kNever) continue;
      mcrt::expect(s.alive == 0, "a callback leaked");
      mcrt::expect(s.runs <= 1, mc::cat("a callback ran ", s.runs, " times"));
      if (s.dropped < first_begin) {
        mcrt::expect(s.runs == 0, "a callback ran although its subscription was dropped before");
        mcrt::expect(!s.alive_after_drop, "a dropped subscription keeps its callback");
      }
      if (s.begin > first_end && s.begin != kNever) mcrt::expect(s.ran_inline, "subscribing to a cancelled context did not run the callback at once");
      if (!any_c) mcrt::expect(s.runs == 0, "a callback ran without a cancellation");
      if (any_c && s.dropped == kNever) mcrt::expect(s.runs == 1, "a callback was lost");
      if (winner && s.end < first_begin && s.dropping > winner->end) {
        mcrt::expect(winner->runs[i] == 1, "Cancel() returned before a callback has run");
        mcrt::expect(winner->alive[i] == 0, "Cancel() returned before a callback was released");
      }
    }
    mcrt::outcome(mc::cat(won.empty() ? "-" : won));
  });
}

// ---- Scopes

// Scopes are per thread, and a cancellation from another thread is noticed.
MC_HARNESS(cancel_scope_threads) {
  int kind = mc::choose(3);  // the second thread: no scope, the same context, another
  bool late = mc::flag();
  mc::state(mc::cat("t", kind, late));
  mcrt::Options o;
  o.bound = mc::tier(3, 5);
  mcrt::run(o, [&] {
    auto a = CancellationContext::Make();
    auto b = CancellationContext::Make();
    Guard g(a);
    int payload = 0;
    std::thread t([&] {
      mcrt::expect(Guard::current_cancellation_context() == nullptr, "a scope of another thread is current");
      mcrt::expect(!arolla::Cancelled(), "cancelled without a scope");
      {
        std::optional<Guard> g2;
        if (kind == 1) g2.emplace(a);
        if (kind == 2) g2.emplace(b);
        if (late) payload = 1;
        a->Cancel(Error("a"));
        mcrt::expect(arolla::Cancelled() == (kind == 1), "wrong Cancelled() in the cancelling thread");
        mcrt::expect(CheckCancellation().ok() == (kind != 1), "wrong CheckCancellation() in the cancelling thread");
      }
      mcrt::expect(!arolla::Cancelled(), "cancelled after the scope");
    });
    absl::Status first = CheckCancellation();
    // The status comes under a lock, and what was written before Cancel() with it.
    if (!first.ok() && late) mcrt::expect(payload == 1, "data written before Cancel() is not visible");
    mcrt::expect(first.ok() || first.message() == "a", "wrong status");
    if (!first.ok()) mcrt::expect(!CheckCancellation().ok(), "the cancellation was undone");
    t.join();
    mcrt::expect(arolla::Cancelled(), "a cancellation by a joined thread is not noticed");
    mcrt::expect(CheckCancellation().message() == "a", "wrong status");
    mcrt::expect(Guard::current_cancellation_context() == a.get(), "another thread changed the current context");
  });
}

// ---- PermanentEvent

// n: notify, h: query, w: wait, t: timed wait, k: forget the own reference
const char* const kEvents[] = {"n", "w", "t", "nh", "nw", "hnt", "tw", "nn", "hw", "nkn", "tn"};

MC_HARNESS(permanent_event) {
  int nt = mc::range(1, 3);
  int np = nt < 3 ? 11 : mc::tier(6, 11);
  std::vector<const char*> prog;
  std::vector<int> pi;
  int notifiers = 0;
  bool waits_first = false;
  for (int i = 0; i < nt; ++i) {
    int p = mc::choose(np);
    if (i && p < pi.back()) mc::abandon();
    pi.push_back(p);
    prog.push_back(kEvents[p]);
    const char* n = strchr(prog[i], 'n');
    const char* w = strchr(prog[i], 'w');
    if (n && (!w || n < w)) ++notifiers;
    if (w && (!n || w < n)) waits_first = true;
    MC_SAY("thread " << i << ": " << prog[i]);
  }
  if (waits_first && !notifiers) mc::abandon();  // never returns
  bool single = notifiers == 1;
  mc::state(mc::cat("e", nt, prog[0], nt > 1 ? prog[1] : "", ",", nt > 2 ? prog[2] : ""));
  mcrt::Options o;
  o.bound = nt <= 2 ? mc::tier(3, 5) : mc::tier(1, 2);
  mcrt::run(o, [&] {
    auto event = PermanentEvent::Make();
    mcrt::expect(!event->HasBeenNotified(), "a new event is notified");
    int data = 0, total_n = 0;
    int64_t notified_at = kNever;
    for (auto* p : prog) for (auto* c = p; *c; ++c) total_n += *c == 'n';
    auto body = [&](int me, arolla::PermanentEventPtr e) {
      bool on = false;
      int64_t begin;
      for (const char* c = prog[me]; *c; ++c) switch (*c) {
          case 'n':
            if (single && total_n == 1) data = 7;
            e->Notify();
            { mcrt::Quiet q; notified_at = std::min(notified_at, mcrt::now()); }
            on = true;
            mcrt::expect(e->HasBeenNotified(), "not notified right after Notify()");
            break;
          case 'h':
            if (e->HasBeenNotified()) on = true;
            else mcrt::expect(!on, "an event is no longer notified");
            break;
          case 'w':
            e->Wait();
            on = true;
            if (single && total_n == 1) mcrt::expect(data == 7, "data written before Notify() is not visible after Wait()");
            mcrt::expect(e->HasBeenNotified(), "not notified after Wait()");
            break;
          case 't':
            begin = mcrt::now();
            if (e->WaitWithDeadline(absl::InfinitePast())) {
              on = true;
              if (single && total_n == 1) mcrt::expect(data == 7, "data written before Notify() is not visible after WaitWithDeadline()");
              mcrt::expect(e->HasBeenNotified(), "not notified after WaitWithDeadline()");
            } else {
              mcrt::expect(!on, "WaitWithDeadline() times out on a notified event");
              mcrt::Quiet q;
              mcrt::expect(notified_at >= begin, "WaitWithDeadline() times out after Notify() has returned");
            }
            break;
          case 'k': {
            auto again = e;
            e = nullptr;
            e = std::move(again);
            break;
          }
        }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nt; ++i) ts.emplace_back(body, i, event);
    auto own = std::move(event);
    auto* raw = own.get();
    (void)raw;
    body(0, std::move(own));
    for (auto& t : ts) t.join();
  });
}

}  // namespace

MC_MAIN()
