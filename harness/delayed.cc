// P08: delayed tasks on a thread pool.
#include <chrono>
#include <cstddef>
#include <functional>
#include <thread>
#include <utility>

#include "rst/task_runner/task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "vfs.h"

namespace {

using std::chrono::nanoseconds;

// The clock never goes back; every reading by a thread of the pool may be later
// than the one before.
long g_now;
// Has the clock been read before / at the due time of task 0?
int g_found_early;
long g_due[3];
int g_posted[3], g_ran[3];

// Does the clock stay before the horizon?
int g_bounded;
long g_horizon;

nanoseconds Clock() {
  if (vfs_self() != 0) {
    const long t = vf_long();
    vf_assume(t >= g_now);
    if (g_bounded)
      vf_assume(t < g_horizon);
    g_now = t;
    if (g_posted[0] && t < g_due[0])
      g_found_early = 1;
  }
  return nanoseconds(g_now);
}

void Begin(int preemptions, int spurious, int timeouts) {
  g_now = vf_long();
  g_found_early = 0;
  g_bounded = 0;
  for (int i = 0; i < 3; i++)
    g_due[i] = g_posted[i] = g_ran[i] = 0;
  vf_no_abort("using delayed tasks aborted");
  vfs_sched(preemptions, spurious, timeouts);
}

rst::ThreadPoolTaskRunner* NewPool() {
  const long alive = vf_long();
  vf_assume(alive > 0);
  return new rst::ThreadPoolTaskRunner(1, Clock, nanoseconds(alive));
}

void Run(int i) {
  vf_assert(g_now >= g_due[i], "a delayed task runs before its due time");
  vf_assert(g_ran[i] == 0, "a delayed task runs more than once");
  vf_assert(vfs_held() == 0, "a task runs while the pool holds a mutex");
  for (int j = 0; j < 3; j++) {
    if (g_posted[j] && !g_ran[j] && j != i)
      vf_assert(g_due[i] < g_due[j] || (g_due[i] == g_due[j] && i < j),
                "delayed tasks are not released in the order of due time and posting");
  }
  g_ran[i]++;
  if (g_bounded && i == 1)
    vf_reach("released after many others");
}

template <int kId>
void Post(rst::TaskRunner* r, long delay) {
  g_due[kId] = g_now + delay;
  g_posted[kId] = 1;
  r->PostDelayedTask([] { Run(kId); }, nanoseconds(delay));
}

long Delay() {
  const long d = vf_long();
  vf_assume(d > 0);
  return d;
}

// Many tasks with these delays (all different).
template <int... kDelays>
void Queue() {
  Begin(0, 0, 0);
  vf_exact_heaps();
  rst::TaskRunner* const r = NewPool();
  constexpr int kN = sizeof...(kDelays);
  const long delays[] = {kDelays...};
  const long now = g_now;
  for (int i = 0; i < kN; i++) {
    r->PostDelayedTask(
        [i, now, delay = delays[i]] {
          vf_assert(g_now >= now + delay, "one of many delayed tasks runs before its due time");
          vf_log(i, 0);
          if (vf_log_size() == kN) {
            for (int k = 0; k < kN; k++) {
              int before = 0;
              const long d[] = {kDelays...};
              for (int j = 0; j < kN; j++) {
                if (d[j] < d[k])
                  before++;
              }
              vf_assert(vf_logged(before, k, 0), "many delayed tasks do not run once, in the order of their due times");
            }
            vf_reach("all released");
          }
        },
        nanoseconds(delays[i]));
  }
  g_now = now + 100;
  vfs_settle();
  vf_assert(vf_log_size() == kN, "one of many delayed tasks is lost, or runs twice");
}

}  // namespace

void P08_queue_up() { Queue<10, 40, 20, 30, 50, 60>(); }
void P08_queue_down() { Queue<60, 50, 40, 30, 20, 10>(); }
void P08_queue_mixed() { Queue<30, 10, 60, 20, 50, 40, 15>(); }

void P08_one() {
  Begin(1, 1, 2);
  rst::TaskRunner* const r = NewPool();
  g_due[0] = g_now;
  const long d = Delay();
  g_due[0] = g_now + d;
  g_posted[0] = 1;
  r->PostDelayedTask(
      [] {
        Run(0);
        vf_reach("released");
        if (g_found_early)
          vf_reach("released after it was found not to be due");
      },
      nanoseconds(d));
  vfs_settle();
  vf_assert(g_ran[0] == 1, "a delayed task is lost");
  vf_reach("end");
}

// Any delay, zero included.
void P08_any_delay() {
  Begin(1, 0, 2);
  rst::TaskRunner* const r = NewPool();
  const long d = vf_long();
  vf_assume(d >= 0);
  Post<0>(r, d);
  vfs_settle();
  vf_assert(g_ran[0] == 1, "a posted task is lost");
  vf_reach("end");
}

void P08_two() {
#ifdef VF_THOROUGH
  Begin(1, 0, 2);
#else
  Begin(0, 0, 2);
#endif
  rst::TaskRunner* const r = NewPool();
  Post<0>(r, Delay());
  Post<1>(r, Delay());
  vfs_settle();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1, "a delayed task is lost");
  vf_reach("end");
}

void P08_two_later() {
  Begin(0, 0, 3);
  rst::TaskRunner* const r = NewPool();
  vfs_flush();
  Post<0>(r, Delay());
  const long t = vf_long();
  vf_assume(t >= g_now);
  g_now = t;
  Post<1>(r, Delay());
  vf_reach("posted");
  vfs_settle();
}

// The clock advances between the posts.
void P08_two_apart() {
  Begin(0, 0, 2);
  rst::TaskRunner* const r = NewPool();
  Post<0>(r, Delay());
  const long t = vf_long();
  vf_assume(t >= g_now);
  g_now = t;
  Post<1>(r, Delay());
  vfs_settle();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1, "a delayed task is lost");
  vf_reach("end");
}

void P08_ties() {
  Begin(0, 0, 1);
  rst::TaskRunner* const r = NewPool();
  const long d = Delay();
  Post<0>(r, d);
  Post<1>(r, d);
  Post<2>(r, d);
  vfs_settle();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1 && g_ran[2] == 1, "a delayed task is lost");
  vf_reach("end");
}

// Three tasks out of order.
void P08_three() {
  Begin(0, 0, 1);
  rst::TaskRunner* const r = NewPool();
  const long d = Delay();
  Post<0>(r, d + 2);
  Post<1>(r, d);
  Post<2>(r, d + 1);
  vfs_settle();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1 && g_ran[2] == 1, "a delayed task is lost");
  vf_reach("end");
}

#ifdef VF_THOROUGH
void P08_three_any() {
  Begin(0, 0, 0);
  rst::TaskRunner* const r = NewPool();
  Post<0>(r, Delay());
  Post<1>(r, Delay());
  Post<2>(r, Delay());
  vfs_settle();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1 && g_ran[2] == 1, "a delayed task is lost");
  vf_reach("end");
}
#endif

// A task posts the next one.
void P08_from_task() {
  Begin(0, 0, 2);
  rst::TaskRunner* const r = NewPool();
  const long d = Delay(), e = Delay();
  g_due[0] = g_now + d;
  g_posted[0] = 1;
  r->PostDelayedTask(
      [r, e] {
        Run(0);
        g_due[1] = g_now + e;
        g_posted[1] = 1;
        r->PostDelayedTask([] { Run(1); vf_reach("second"); }, nanoseconds(e));
      },
      nanoseconds(d));
  vfs_settle();
}

// Shutdown neither releases tasks early nor twice.
void P08_shutdown() {
  Begin(1, 0, 1);
  rst::TaskRunner* const r = NewPool();
  Post<0>(r, Delay());
  Post<1>(r, Delay());
  delete r;
  vf_reach("end");
}

// After any number of delayed tasks the order is still the order of posting.  (The
// two whose posting is repeated stay scheduled, all others have been released.)
void P08_many() {
  Begin(0, 0, 1);
  rst::TaskRunner* const r = NewPool();
  const long d = Delay(), far = Delay();
  vf_assume(far > d);
  g_bounded = 1;
  g_horizon = g_now + far;
  for (int i = 0; i < 3; i++) {
    vf_mark();
    r->PostDelayedTask([] {}, nanoseconds(far));
  }
  vf_again();
  Post<0>(r, d);
  Post<1>(r, d);
  vfs_settle();
}
