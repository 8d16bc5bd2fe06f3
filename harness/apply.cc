// P07: ApplyTaskSync.
#include <chrono>
#include <cstddef>
#include <functional>
#include <thread>
#include <utility>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "vfs.h"

namespace {

using std::chrono::nanoseconds;

int g_run[4], g_end[4], g_n, g_returned;

void Begin(int preemptions, int spurious, int timeouts, int suspensions) {
  for (int i = 0; i < 4; i++)
    g_run[i] = g_end[i] = 0;
  g_n = g_returned = 0;
  vf_no_abort("ApplyTaskSync aborted");
  vfs_sched(preemptions, spurious, timeouts);
  vfs_suspend(suspensions);
}

void Call(std::size_t i) {
  vf_assert(i < static_cast<std::size_t>(g_n), "called with an index that is not below the number of iterations");
  vf_assert(g_returned == 0, "called after ApplyTaskSync has returned");
  vf_assert(g_run[i] == 0, "an index is used more than once");
  g_run[i]++;
  vfs_yield();
  vf_assert(g_returned == 0, "ApplyTaskSync returned during a call");
  g_end[i]++;
}

void Apply(rst::TaskRunner* r, int n) {
  g_n = n;
  r->ApplyTaskSync([](std::size_t i) { Call(i); }, static_cast<std::size_t>(n));
  g_returned = 1;
  for (int i = 0; i < n; i++)
    vf_assert(g_end[i] == 1, "ApplyTaskSync returned before the call for every index has ended");
}

rst::ThreadPoolTaskRunner* NewPool(std::size_t max) {
  const long alive = vf_long();
  vf_assume(alive > 0);
  rst::ThreadPoolTaskRunner* const r =
      new rst::ThreadPoolTaskRunner(max, [] { return nanoseconds(0); }, nanoseconds(alive));
  vfs_flush();
  return r;
}

// Runs each posted task as often as requested, on new threads of its own.
struct Threads : rst::TaskRunner {
  std::function<void()> copies[3];
  std::thread threads[3];
  int n = 0;

 protected:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds delay,
                                     std::size_t iterations) override {
    vf_assert(delay == nanoseconds(0), "ApplyTaskSync posts with a delay");
    vf_assert(iterations == static_cast<std::size_t>(g_n - 1), "ApplyTaskSync posts another number of iterations");
    vf_assert(n == 0, "ApplyTaskSync posts more than one task");
    for (n = 0; n < g_n; n++) {
      copies[n] = task;
      threads[n] = std::thread([this, i = n] {
        copies[i]();
        copies[i] = nullptr;
      });
    }
  }
};

void ApplyThreads(int n) {
  Threads* const r = new Threads;
  Apply(r, n);
  for (int i = 0; i < n; i++)
    r->threads[i].join();
  vf_reach("end");
}

// Runs the posted task many times, one after another.
struct Sequence : rst::TaskRunner {
 protected:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds, std::size_t) override {
    const std::function<void()> f = std::move(task);
    for (int i = 0; i < 3; i++) {
      vf_mark();
      f();
    }
    vf_again();
    g_n = 3;
    f();
    g_n = 4;
    f();
    vf_reach("after many calls");
    vfs_cut();
  }
};

}  // namespace

// More iterations than any counter narrower than the number of them can count.
void P07_many() {
  vfs_sched(0, 0, 0);
  g_n = 0;
  Sequence* const r = new Sequence;
  const std::size_t n = vf_size();
  vf_assume(n > (std::size_t{1} << 42) && n < (std::size_t{1} << 62));
  static std::size_t used[5];
  static int calls;
  calls = 0;
  r->ApplyTaskSync(
      [n](std::size_t i) {
        vf_assert(i < n, "called with an index that is not below the number of iterations");
        const int k = g_n >= 3 ? g_n : calls++;
        for (int j = 0; j < k; j++)
          vf_assert(used[j] != i, "after many calls an index is used more than once");
        used[k] = i;
      },
      n);
}

void P07_threads_one() {
  Begin(1, 1, 0, 2);
  ApplyThreads(1);
}

void P07_threads_two() {
  Begin(1, 0, 0, 2);
  ApplyThreads(2);
}

void P07_threads_three() {
  Begin(0, 0, 0, 2);
  ApplyThreads(3);
}

void P07_pool_one() {
  Begin(1, 0, 1, 1);
  Apply(NewPool(1), 1);
  vf_reach("end");
}

void P07_pool_one_two() {
  Begin(1, 0, 1, 1);
  Apply(NewPool(1), 2);
  vf_reach("end");
}

void P07_pool_two() {
  Begin(1, 0, 1, 1);
  Apply(NewPool(2), 2);
  vf_reach("end");
}

void P07_pool_three() {
  Begin(0, 0, 0, 1);
  Apply(NewPool(2), 3);
  vf_reach("end");
}

void P07_polling() {
  Begin(0, 0, 0, 1);
  rst::PollingTaskRunner* const r = new rst::PollingTaskRunner([] { return nanoseconds(0); });
  std::thread other([r] { r->RunPendingTasks(); });
  Apply(r, 3);
  other.join();
  vf_reach("end");
}

// A second use of the same runner, whose worker has left in between.
void P07_twice() {
  Begin(0, 0, 1, 0);
  rst::TaskRunner* const r = NewPool(1);
  Apply(r, 1);
  for (int i = 0; i < 4; i++)
    g_run[i] = g_end[i] = 0;
  g_returned = 0;
  Apply(r, 2);
  vf_reach("end");
}
