// Parallel task execution under every schedule.
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "arolla/util/threading.h"
#include "mc.h"
#include "mcrt.h"

namespace {

using arolla::ExecuteTasksInParallel;
using arolla::StdThreading;
using arolla::ThreadingInterface;

// Plain (unsynchronised) result slots: reading them after the call is only
// correct if completion of every task happens before the return.
MC_HARNESS(tasks_exactly_once) {
  int n = mc::range(0, mc::tier(3, 4));
  static const int kPar[] = {1, 2, 3, 4, 5, 1000, 0x7fffffff};
  int pi = mc::choose(7);
  int par = kPar[pi];
  int workers = std::min(n, par);
  MC_SAY(n << " tasks, max parallelism " << par);
  mc::state(mc::cat(n, ",", par));
  mcrt::Options o;
  o.bound = workers <= 2 ? mc::tier(3, 5) : workers == 3 ? mc::tier(2, 3) : mc::tier(1, 2);
  if (par > n + 1) o.bound = 1;  // same workers as par == n
  mcrt::run(o, [&] {
    struct Slot {
      int runs = 0;
      int value = 0;
    };
    std::vector<Slot> slots(n);
    std::atomic<int> running{0}, peak{0};
    std::vector<std::function<void()>> tasks;
    int input[4] = {10, 20, 30, 40};
    for (int i = 0; i < n; ++i) {
      tasks.push_back([&, i] {
        int now = running.fetch_add(1, std::memory_order_relaxed) + 1;
        int p = peak.load(std::memory_order_relaxed);
        if (now > p) peak.store(now, std::memory_order_relaxed);
        mcrt::expect(now <= par, mc::cat(now, " tasks run at once, at most ", par, " allowed"));
        ++slots[i].runs;
        slots[i].value = input[i];
        running.fetch_sub(1, std::memory_order_relaxed);
      });
    }
    ExecuteTasksInParallel(par, tasks);
    for (int i = 0; i < n; ++i) {
      mcrt::expect(slots[i].runs == 1, mc::cat("task ", i, " ran ", slots[i].runs, " times"));
      mcrt::expect(slots[i].value == input[i], "result of a task is lost");
    }
    mcrt::expect(running.load(std::memory_order_relaxed) == 0, "a task is still running");
  });
}

// Tasks that need each other: as many as may run in parallel meet at a barrier.
MC_HARNESS(tasks_meet) {
  int n = mc::range(2, mc::tier(3, 4));
  int par = mc::range(2, n + 1);
  int meet = std::min(n, par);
  MC_SAY(n << " tasks, max parallelism " << par);
  mc::state(mc::cat("m", n, ",", par));
  mcrt::Options o;
  o.bound = meet == 2 ? mc::tier(2, 4) : mc::tier(1, 2);
  o.stale = false;
  mcrt::run(o, [&] {
    std::mutex mu;
    std::condition_variable cv;
    int arrived = 0;
    std::vector<int> ran(n);
    std::vector<std::function<void()>> tasks;
    for (int i = 0; i < n; ++i)
      tasks.push_back([&, i] {
        ran[i]++;
        if (i >= meet) return;
        std::unique_lock<std::mutex> l(mu);
        if (++arrived == meet) cv.notify_all();
        while (arrived < meet) cv.wait(l);
      });
    ExecuteTasksInParallel(par, tasks);
    for (int i = 0; i < n; ++i) mcrt::expect(ran[i] == 1, "a task did not run exactly once");
  });
}

// Tasks of different length: a long task does not hold up the others' completion
// and nested parallel sections work.
MC_HARNESS(tasks_nested) {
  int outer = mc::range(1, 2), inner = mc::range(1, 2), par = mc::range(1, 2);
  bool big = outer * inner * par == 8;
  MC_SAY(outer << "x" << inner << " nested tasks, parallelism " << par);
  mc::state(mc::cat("n", outer, inner, par));
  mcrt::Options o;
  o.bound = big ? mc::tier(0, 1) : mc::tier(1, 2);
  mcrt::run(o, [&] {
    int done[2][2] = {};
    std::vector<std::function<void()>> tasks;
    for (int i = 0; i < outer; ++i)
      tasks.push_back([&, i] {
        std::vector<std::function<void()>> sub;
        for (int j = 0; j < inner; ++j) sub.push_back([&, j] { ++done[i][j]; });
        ExecuteTasksInParallel(par, sub);
        for (int j = 0; j < inner; ++j) mcrt::expect(done[i][j] == 1, "inner task incomplete at return");
      });
    ExecuteTasksInParallel(2, tasks);
    for (int i = 0; i < outer; ++i)
      for (int j = 0; j < inner; ++j) mcrt::expect(done[i][j] == 1, "a nested task did not run exactly once");
  });
}

// The documented use of the threading interface.
MC_HARNESS(threading_interface) {
  int count = mc::range(-1, 4);
  bool by_copy = mc::flag(), keep = mc::flag();
  bool reverse = mc::flag();
  MC_SAY("thread count " << count);
  mc::state(mc::cat("i", count, by_copy, keep, reverse));
  mcrt::Options o;
  o.bound = count <= 2 ? mc::tier(3, 5) : mc::tier(1, 2);
  mcrt::run(o, [&] {
    StdThreading impl(count);
    ThreadingInterface& th = impl;
    int want = count < 1 ? 1 : count;
    mcrt::expect(th.GetRecommendedThreadCount() == want, mc::cat("recommended ", th.GetRecommendedThreadCount(), ", expected ", want));
    std::vector<int> out(want, 0);
    int rounds = 0;
    th.WithThreading([&] {
      ++rounds;
      int n = th.GetRecommendedThreadCount();
      std::vector<std::function<void()>> joins, kept;
      for (int i = 1; i < n; ++i) {
        std::function<void()> work = [&out, i] { out[i] += i + 1; };
        auto join = by_copy ? th.StartThread(work) : th.StartThread(std::move(work));
        joins.push_back(join);
        if (keep) kept.push_back(join);  // copies that are never called
      }
      out[0] += 1;
      if (reverse) for (size_t i = joins.size(); i-- > 0;) joins[i]();
      else for (auto& j : joins) j();
      for (int i = 0; i < n; ++i) mcrt::expect(out[i] == i + 1, "work of a joined thread is incomplete");
    });
    mcrt::expect(rounds == 1, "WithThreading did not run the function once before returning");
  });
}

MC_HARNESS(default_thread_count) {
  StdThreading t;
  mc::step();
  MC_EQ(t.GetRecommendedThreadCount(), std::max(1, (int)std::thread::hardware_concurrency()), "");
}

}  // namespace

MC_MAIN()
