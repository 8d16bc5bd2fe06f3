// P02, P03, P06, P09: immediate tasks on a thread pool.
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>

#include "rst/task_runner/task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "vfs.h"

namespace {

using std::chrono::nanoseconds;

int g_a, g_b, g_c;
long g_clock;

void Begin(int preemptions, int spurious, int timeouts) {
  g_a = g_b = g_c = 0;
  g_clock = 0;
  vf_no_abort("using a pool aborted");
  vfs_sched(preemptions, spurious, timeouts);
}

rst::ThreadPoolTaskRunner* NewPool(std::size_t max) {
  const long alive = vf_long();
  vf_assume(alive > 0);
  return new rst::ThreadPoolTaskRunner(max, [] { return nanoseconds(g_clock); }, nanoseconds(alive));
}

// The thread for delayed tasks has come to rest already.
rst::ThreadPoolTaskRunner* RestingPool(std::size_t max) {
  rst::ThreadPoolTaskRunner* const r = NewPool(max);
  vfs_flush();
  return r;
}

std::mutex g_meet_mutex;
std::condition_variable g_meet_cv;

// Waits until n tasks have come here.
void Meet(int n) {
  std::unique_lock lock(g_meet_mutex);
  g_a++;
  g_meet_cv.notify_all();
  while (g_a < n)
    g_meet_cv.wait(lock);
}

}  // namespace

// ---------------------------------------------------------------- P02
void P02_one() {
  Begin(1, 1, 2);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  vfs_settle();
  vf_assert(g_a == 1, "a posted task did not run once");
  vf_reach("end");
}

void P02_two() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a posted task did not run once");
  vf_reach("end");
}

void P02_two_workers() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = RestingPool(2);
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a posted task did not run once");
  vf_reach("end");
}

// A task is posted by another thread at any moment: while the worker runs,
// waits, wakes up, times out or leaves.
void P02_late() {
  Begin(2, 1, 2);
  rst::TaskRunner* const r = RestingPool(1);
  std::thread other([r] { r->PostTask([] { g_b++; }); });
  r->PostTask([] { g_a++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a posted task did not run once");
  other.join();
  vf_reach("end");
}

void P02_late_two() {
  Begin(0, 0, 2);
  rst::TaskRunner* const r = RestingPool(2);
  std::thread other([r] { r->PostTask([] { g_b++; }); });
  std::thread third([r] { r->PostTask([] { g_c++; }); });
  r->PostTask([] { g_a++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1 && g_c == 1, "a posted task did not run once");
  other.join();
  third.join();
  vf_reach("end");
}

// After any number of posts, with workers that stay or leave in between, tasks
// still run.
void P02_many() {
  Begin(0, 0, 4);
  rst::TaskRunner* const r = NewPool(1);
  for (int i = 0; i < 3; i++) {
    vf_mark();
    r->PostTask([] { g_c++; });
    vfs_settle();
  }
  vf_again();
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "after many tasks a posted task did not run once");
  vf_reach("end");
}

// After the only worker has left for want of work another one is started.
void P02_again() {
  Begin(1, 0, 3);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  vfs_settle();
  r->PostTask([] { g_b++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a task posted after the workers had left did not run once");
  vf_reach("end");
}

void P02_from_task() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([r] {
    g_a++;
    r->PostTask([] { g_b++; });
  });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a task posted by a task did not run once");
  vf_reach("end");
}

void P02_repeated() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r] {
    r->ApplyTaskSync([](std::size_t) { g_a++; }, 2);
  });
  r->PostTask([] { g_b++; });
  vfs_settle();
  vf_assert(g_a == 2, "a repeated task did not run as often as requested");
  vf_assert(g_b == 1, "a posted task did not run once");
  other.join();
  vf_reach("end");
}

void P02_repeated_two() {
  Begin(0, 0, 2);
  rst::TaskRunner* const r = RestingPool(2);
  std::thread other([r] {
    r->ApplyTaskSync([](std::size_t) { g_a++; }, 3);
  });
  vfs_settle();
  vf_assert(g_a == 3, "a repeated task did not run as often as requested");
  other.join();
  vf_reach("end");
}

// ---------------------------------------------------------------- P06
// g_a: tasks running now.
void P06_limit_one() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool(1);
  const auto task = [] {
    g_a++;
    vf_assert(g_a <= 1, "more tasks run at the same time than the maximum allows");
    vf_assert(vfs_live() <= 2, "more workers are alive than the maximum allows");
    vfs_yield();
    g_a--;
  };
  std::thread other([r, task] { r->PostTask(task); });
  r->PostTask(task);
  vf_assert(vfs_live() <= 2, "more workers are alive than the maximum allows");
  r->PostTask(task);
  vf_assert(vfs_live() <= 2, "more workers are alive than the maximum allows");
  vfs_settle();
  other.join();
  vf_reach("end");
}

void P06_limit_two() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool(2);
  const auto task = [] {
    g_a++;
    vf_assert(g_a <= 2, "more tasks run at the same time than the maximum allows");
    vf_assert(vfs_live() <= 3, "more workers are alive than the maximum allows");
    vfs_yield();
    g_a--;
  };
  r->PostTask(task);
  r->PostTask(task);
  r->PostTask(task);
  vf_assert(vfs_live() <= 3, "more workers are alive than the maximum allows");
  vfs_settle();
  vf_reach("end");
}

// Tasks that come due while workers are busy, and while they are idle.
template <int kMax>
void LimitDelayed() {
  rst::TaskRunner* const r = NewPool(kMax);
  const auto task = [] {
    g_a++;
    vf_assert(g_a <= kMax, "more tasks run at the same time than the maximum allows");
    vf_assert(vfs_live() <= kMax + 1, "more workers are alive than the maximum allows");
    vfs_yield();
    g_a--;
  };
  const auto long_task = [r, task] {
    g_a++;
    vf_assert(g_a <= kMax, "more tasks run at the same time than the maximum allows");
    r->PostDelayedTask(task, nanoseconds(1));
    g_clock++;
    vfs_flush();
    vf_assert(vfs_live() <= kMax + 1, "more workers are alive than the maximum allows");
    vf_reach("came due");
    g_a--;
  };
  r->PostTask(long_task);
  if (kMax > 1)
    r->PostTask(long_task);
  vfs_settle();
}

void P06_limit_delayed() {
  Begin(0, 0, 2);
  LimitDelayed<1>();
}

void P06_limit_delayed_two() {
  Begin(0, 0, 2);
  LimitDelayed<2>();
}

// Posting while every worker is busy and the maximum is not reached.
void P06_grows() {
  Begin(1, 0, 2);
  const std::size_t max = vf_size();
  vf_assume(max >= 2);
  rst::TaskRunner* const r = NewPool(max);
  r->PostTask([r] {
    const int n = vfs_started();
    r->PostTask([] {});
    vf_assert(vfs_started() > n, "no worker is started for a task posted while none is idle");
    g_a++;
  });
  vf_assert(vfs_started() >= 2, "the first task does not start a worker");
  vfs_settle();
  vf_assert(g_a == 1, "the task did not run");
  vf_reach("end");
}

void P06_grows_repeated() {
  Begin(0, 0, 2);
  const std::size_t max = vf_size();
  vf_assume(max >= 2);
  rst::TaskRunner* const r = NewPool(max);
  std::thread other([r] {
    const int n = vfs_started();
    r->ApplyTaskSync([](std::size_t) { g_a++; }, 2);
    vf_assert(vfs_started() > n, "no worker is started for a task posted while none is idle");
  });
  vfs_settle();
  vf_assert(vfs_started() <= 3, "more workers are started than there are tasks");
  other.join();
  vf_reach("end");
}

// An idle worker takes one run of a burst: further workers are started for the others.
void P06_burst() {
  Begin(0, 0, 0);
  const std::size_t max = vf_size();
  vf_assume(max >= 3);
  rst::TaskRunner* const r = NewPool(max);
  r->PostTask([] { g_a++; });
  vfs_flush();
  vf_assume(g_a == 1 && vfs_live() == 2 && vfs_asleep() == 2);
  const int n = vfs_started();
  std::thread other([r] {
    r->ApplyTaskSync([](std::size_t) { g_b++; }, 2);
  });
  vfs_flush();
  vf_assert(vfs_started() > n, "no worker is started for the second run of a burst while only one is idle");
  vf_reach("end");
  vfs_cut();
}

// The capacity of workers that have left is available again.
void P06_regrows() {
  Begin(0, 0, 3);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] {});
  vf_assert(vfs_started() >= 2, "the first task does not start a worker");
  vfs_settle();
  vf_assert(vfs_live() == 1, "an idle worker has not left");
  r->PostTask([] {});
  vf_assert(vfs_started() == 3, "no worker is started after all workers have left");
  vf_reach("end");
}

// ---------------------------------------------------------------- P09
void P09_unused() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = NewPool(1);
  delete r;
  vf_assert(vfs_unfinished() == 0, "the destructor returned while a thread of the pool can run");
  vf_reach("end");
}

void P09_posted() {
  Begin(1, 0, 1);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  delete r;
  vfs_settle();
  vf_assert(g_a <= 1, "a task ran more than once");
  vf_reach("end");
}

void P09_two() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = NewPool(2);
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  delete r;
  vfs_settle();
  vf_reach("end");
}

// Destruction by another thread at any moment.
void P09_other_thread() {
  Begin(2, 0, 1);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  std::thread other([r] { delete r; });
  vfs_settle();
  other.join();
  vf_reach("end");
}

void P09_running_task() {
  Begin(1, 0, 1);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r] { delete r; });
  vf_assume(vfs_started() == 1);
  vfs_settle();
  other.join();
  vf_reach("end");
}

void P09_delayed() {
  Begin(1, 0, 1);
  const long d = vf_long();
  vf_assume(d > 0);
  rst::TaskRunner* const r = NewPool(1);
  r->PostDelayedTask([] { g_a++; }, nanoseconds(d));
  delete r;
  vfs_settle();
  vf_reach("end");
}

void P09_due() {
  // a delayed task becomes due while the pool is destroyed
  Begin(2, 0, 1);
  long now = 0;
  rst::TaskRunner* const r =
      new rst::ThreadPoolTaskRunner(1, [&now] { return nanoseconds(now++); }, nanoseconds(5));
  r->PostDelayedTask([] { g_a++; }, nanoseconds(1));
  delete r;
  vfs_settle();
  vf_reach("end");
}

// ---------------------------------------------------------------- P05
// Here no wait ever times out, so that every task depends on notifications.
void P05_post() {
  Begin(1, 1, 0);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r] { r->PostTask([] { g_b++; }); });
  r->PostTask([] { g_a++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1, "a posted task does not wake a waiting worker");
  other.join();
  vf_reach("end");
}

void P05_post_two() {
  Begin(0, 0, 0);
  rst::TaskRunner* const r = RestingPool(2);
  std::thread other([r] { r->PostTask([] { g_b++; }); });
  std::thread third([r] { r->PostTask([] { g_c++; }); });
  r->PostTask([] { g_a++; });
  vfs_settle();
  vf_assert(g_a == 1 && g_b == 1 && g_c == 1, "a posted task does not wake a waiting worker");
  other.join();
  third.join();
  vf_reach("end");
}

void P05_repeated() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = RestingPool(1);
  std::thread other([r] {
    r->ApplyTaskSync([](std::size_t) { g_a++; }, 2);
    g_b++;
  });
  vfs_settle();
  vf_assert(g_a == 2, "a posted task does not wake a waiting worker");
  vf_assert(g_b == 1, "the end of the iterations does not wake the waiting thread");
  other.join();
  vf_reach("end");
}

// A worker that waits is notified by the post itself.
void P05_idle() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = RestingPool(1);
  std::thread other([r] {
    const int n = vfs_asleep();
    r->PostTask([] { g_b++; });
    vf_assert(n < 2 || vfs_asleep() < n || g_b == 1, "a post does not notify an idle worker");
  });
  r->PostTask([] { g_a++; });
  vfs_settle();
  other.join();
  vf_reach("end");
}

// Two iterations that wait for each other need both workers: one that takes an
// iteration and leaves another in the queue wakes the other worker.
void P05_meet() {
  Begin(0, 0, 0);
  rst::TaskRunner* const r = RestingPool(2);
  std::thread other([r] {
    r->ApplyTaskSync([](std::size_t) { Meet(2); }, 2);
    g_b++;
  });
  vfs_settle();
  vf_assert(g_a == 2 && g_b == 1, "a queued task does not wake an idle worker");
  other.join();
  vf_reach("end");
}

// The same with workers that are idle: when the first iteration starts the other
// one is still in the queue, so no worker may sleep on.
void P05_chain() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = RestingPool(2);
  std::thread other([r] {
    r->ApplyTaskSync(
        [](std::size_t) {
          g_c++;
          if (g_c == 1)
            vf_assert(vfs_runnable() > 0 || vfs_asleep() <= 1,
                      "a worker sleeps on while a task is queued");
        },
        2);
  });
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  vfs_settle();
  other.join();
  vf_reach("end");
}

// The thread for delayed tasks is notified of every delayed task.
void P05_delayed() {
  Begin(1, 1, 0);
  const long d = vf_long();
  vf_assume(d > 0);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r, d] {
    vfs_mark_asleep();
    r->PostDelayedTask([] {}, nanoseconds(d));
    vf_assert(vfs_still_asleep() == 0, "a delayed post does not notify the waiting thread");
  });
  vfs_yield();
  vfs_settle();
  other.join();
  vf_reach("end");
}

// Also when another task is waiting, which is due earlier or later.
void P05_delayed_two() {
  Begin(1, 0, 0);
  const long d = vf_long();
  const long e = vf_long();
  vf_assume(d > 0 && e > 0);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r, d, e] {
    r->PostDelayedTask([] {}, nanoseconds(d));
    vfs_yield();
    vfs_mark_asleep();
    r->PostDelayedTask([] {}, nanoseconds(e));
    vf_assert(e >= d || vfs_still_asleep() == 0,
              "a delayed post that is due earlier does not notify the waiting thread");
  });
  vfs_settle();
  other.join();
  vf_reach("end");
}

// Shutdown wakes the thread for delayed tasks and idle workers.
void P05_shutdown() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = NewPool(1);
  std::thread other([r] { delete r; });
  vfs_settle();
  vf_assert(vfs_unfinished() == 0, "shutdown does not wake a waiting thread");
  other.join();
  vf_reach("end");
}

void P05_shutdown_idle() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = NewPool(1);
  r->PostTask([] { g_a++; });
  std::thread other([r] {
    vf_reach("shutdown");
    delete r;
  });
  vfs_settle();
  other.join();
}

void P05_shutdown_two() {
  Begin(1, 0, 0);
  rst::TaskRunner* const r = NewPool(2);
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  std::thread other([r] {
    vf_reach("shutdown");
    delete r;
  });
  vfs_settle();
  other.join();
}

// A worker that leaves wakes the destructor, which has to pass that on to the
// workers that are still asleep.
void P05_shutdown_relay() {
  Begin(0, 0, 0);
  rst::TaskRunner* const r = NewPool(3);
  r->PostTask([] { g_a++; });
  r->PostTask([] { g_b++; });
  r->PostTask([] { g_c++; });
  std::thread other([r] {
    if (vfs_asleep() != 2)
      vfs_cut();
    vfs_mark_asleep();
    vfs_shutting_down();
    vf_reach("shutdown");
    delete r;
  });
  vfs_settle();
  other.join();
}
