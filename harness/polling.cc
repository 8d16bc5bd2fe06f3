// P01: a polling task runner.
#include <chrono>
#include <cstddef>
#include <functional>
#include <memory>
#include <utility>

#include "rst/task_runner/polling_task_runner.h"
#include "vf.h"

namespace {

using std::chrono::nanoseconds;

long g_now;
int g_ran[4];

void Begin() {
  g_now = vf_long();
  for (int i = 0; i < 4; i++)
    g_ran[i] = 0;
  vf_no_abort("using a polling runner aborted");
}

// Due times are sums of these, far from the end of the clock's range.
long Delay() {
  const long d = vf_long();
  vf_assume(d >= 0);
  return d;
}

// Access to posting with iterations.
struct Runner : rst::PollingTaskRunner {
  Runner() : PollingTaskRunner([] { return nanoseconds(g_now); }) {}
};

template <int kId>
void Task() {
  vf_log(kId, 0);
  g_ran[kId]++;
}

// Posts tasks 0, 1, ... with these delays (all different) and runs them in one
// round, or in two.
template <int... kDelays>
void Queue(bool split) {
  Begin();
  vf_exact_heaps();
  Runner r;
  constexpr int kN = sizeof...(kDelays);
  const long delays[] = {kDelays...};
  for (int i = 0; i < kN; i++)
    r.PostDelayedTask([i] { vf_log(i, 0); }, nanoseconds(delays[i]));
  if (split) {
    const long now = g_now;
    g_now = now + delays[kN / 2];
    r.RunPendingTasks();
    g_now = now;
  }
  g_now = g_now + 100;
  r.RunPendingTasks();
  vf_assert(vf_log_size() == kN, "one of many due tasks did not run, or not once");
  for (int i = 0; i < kN; i++) {
    int before = 0;
    for (int j = 0; j < kN; j++) {
      if (delays[j] < delays[i])
        before++;
    }
    vf_assert(vf_logged(before, i, 0), "many due tasks do not run in the order of their due times");
  }
  vf_reach("end");
}

}  // namespace

// More tasks than a heap keeps in order by chance.
void P01_queue_up() { Queue<10, 40, 20, 30, 50, 60>(false); }
void P01_queue_down() { Queue<60, 50, 40, 30, 20, 10, 5>(true); }
void P01_queue_mixed() { Queue<30, 10, 60, 20, 50, 40, 15>(true); }
void P01_queue_saw() { Queue<10, 70, 20, 60, 30, 50, 40>(false); }

// Runs exactly if due, once.
void P01_one() {
  Begin();
  Runner r;
  const long d = Delay();
  const long due = g_now + d;
  r.PostDelayedTask(Task<0>, nanoseconds(d));
  vf_assert(g_ran[0] == 0, "posting runs the task");
  g_now = vf_long();
  r.RunPendingTasks();
  if (due <= g_now)
    vf_assert(g_ran[0] == 1, "a due task did not run once");
  else
    vf_assert(g_ran[0] == 0, "a task ran early");
  r.RunPendingTasks();
  if (due <= g_now)
    vf_assert(g_ran[0] == 1, "a task ran again");
  else
    vf_assert(g_ran[0] == 0, "a task ran early");
  vf_reach("end");
}

void P01_immediate() {
  Begin();
  Runner r;
  r.PostTask(Task<0>);
  vf_assert(g_ran[0] == 0, "posting runs the task");
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1, "a due task did not run once");
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1, "a task ran again");
  vf_reach("end");
}

// A task that was not due stays queued until it is.
void P01_stays() {
  Begin();
  Runner r;
  const long d = Delay();
  const long due = g_now + d;
  r.PostDelayedTask(Task<0>, nanoseconds(d));
  g_now = vf_long();
  vf_assume(g_now < due);
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 0, "a task ran early");
  g_now = vf_long();
  vf_assume(g_now >= due);
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1, "a task that was not due is lost");
  vf_reach("end");
}

// Two tasks, each with any due time.
void P01_two() {
  Begin();
  Runner r;
  const long a = Delay(), b = Delay();
  const long due_a = g_now + a;
  r.PostDelayedTask(Task<0>, nanoseconds(a));
  g_now = vf_long();
  const long due_b = g_now + b;
  r.PostDelayedTask(Task<1>, nanoseconds(b));
  g_now = vf_long();
  r.RunPendingTasks();
  const bool ran_a = due_a <= g_now, ran_b = due_b <= g_now;
  vf_assert(g_ran[0] == (ran_a ? 1 : 0), "the first task ran although not due, or not once although due");
  vf_assert(g_ran[1] == (ran_b ? 1 : 0), "the second task ran although not due, or not once although due");
  if (ran_a && ran_b) {
    const bool first = due_a <= due_b;
    vf_assert(vf_logged(0, first ? 0 : 1, 0) && vf_logged(1, first ? 1 : 0, 0),
              "due tasks do not run in the order of due time and posting");
  }
  vf_reach("end");
}

// The one left behind runs later.
void P01_two_rounds() {
  Begin();
  Runner r;
  const long a = Delay(), b = Delay();
  const long due_a = g_now + a, due_b = g_now + b;
  r.PostDelayedTask(Task<0>, nanoseconds(a));
  r.PostDelayedTask(Task<1>, nanoseconds(b));
  g_now = vf_long();
  r.RunPendingTasks();
  const long before = g_now;
  g_now = vf_long();
  vf_assume(g_now >= before && g_now >= due_a && g_now >= due_b);
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1, "a task did not run exactly once by its due time");
  const bool first = due_a <= due_b;
  vf_assert(vf_logged(0, first ? 0 : 1, 0) && vf_logged(1, first ? 1 : 0, 0),
            "tasks do not run in the order of due time and posting");
  vf_reach("end");
}

// Posting order decides among equal due times, for three tasks.
void P01_ties() {
  Begin();
  Runner r;
  const long d = Delay();
  r.PostDelayedTask(Task<0>, nanoseconds(d));
  r.PostDelayedTask(Task<1>, nanoseconds(d));
  r.PostDelayedTask(Task<2>, nanoseconds(d));
  g_now = g_now + d;
  r.RunPendingTasks();
  vf_assert(vf_log_size() == 3, "a due task did not run once");
  vf_assert(vf_logged(0, 0, 0) && vf_logged(1, 1, 0) && vf_logged(2, 2, 0),
            "tasks due at the same time do not run in posting order");
  vf_reach("end");
}

void P01_three() {
  Begin();
  Runner r;
  const long a = Delay(), b = Delay(), c = Delay();
  const long now = g_now;
  r.PostDelayedTask(Task<0>, nanoseconds(a));
  r.PostDelayedTask(Task<1>, nanoseconds(b));
  r.PostDelayedTask(Task<2>, nanoseconds(c));
  g_now = vf_long();
  r.RunPendingTasks();
  const bool ra = now + a <= g_now, rb = now + b <= g_now, rc = now + c <= g_now;
  vf_assert(g_ran[0] == (ra ? 1 : 0) && g_ran[1] == (rb ? 1 : 0) && g_ran[2] == (rc ? 1 : 0),
            "a task ran although not due, or not once although due");
  if (ra && rb && rc) {
    if (a <= b && b <= c)
      vf_assert(vf_logged(0, 0, 0) && vf_logged(1, 1, 0) && vf_logged(2, 2, 0), "wrong order");
    if (c < b && b < a)
      vf_assert(vf_logged(0, 2, 0) && vf_logged(1, 1, 0) && vf_logged(2, 0, 0), "wrong order");
    if (b < a && a <= c)
      vf_assert(vf_logged(0, 1, 0) && vf_logged(1, 0, 0) && vf_logged(2, 2, 0), "wrong order");
  }
  vf_reach("end");
}

// A task posted from a task runs in a later round, even if due at once.
void P01_posted_from_task() {
  Begin();
  Runner r;
  const long d = Delay();
  Runner* const p = &r;
  r.PostTask([p, d] {
    Task<0>();
    p->PostDelayedTask(Task<1>, nanoseconds(d));
  });
  const long due = g_now + d;
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1, "a due task did not run once");
  r.RunPendingTasks();
  vf_assert(g_ran[1] <= 1 && (g_ran[1] == 0 || due <= g_now), "a task posted from a task ran twice or early");
  g_now = vf_long();
  vf_assume(g_now >= due);
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1, "a task did not run exactly once");
  vf_reach("end");
}

// The clock moves while tasks run.
void P01_clock_moves() {
  Begin();
  Runner r;
  const long d = Delay();
  const long due = g_now + d;
  r.PostTask([] {
    Task<0>();
    g_now = vf_long();
  });
  r.PostDelayedTask(Task<1>, nanoseconds(d));
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1, "a due task did not run once");
  g_now = vf_long();
  vf_assume(g_now >= due);
  r.RunPendingTasks();
  vf_assert(g_ran[0] == 1 && g_ran[1] == 1, "a task did not run exactly once");
  vf_reach("end");
}

// Tasks still queued are destroyed, unrun, with the runner.
void P01_destroyed() {
  Begin();
  const long d = Delay();
  {
    Runner r;
    const auto p = std::make_shared<vf::Probe>(1);
    r.PostDelayedTask([p] { vf_log(0, p->get()); }, nanoseconds(d));
  }
  vf_assert(vf_live() == 0, "a queued task is not destroyed with the runner");
  vf_assert(vf_log_size() == 0, "destroying the runner runs a task");
  vf_reach("end");
}

// After any number of posts and rounds the order is still the order of posting:
// with a task from before them, and among later ones.
void P01_many() {
  Begin();
  Runner r;
  for (int i = 0; i < 3; i++) {
    vf_mark();
    r.PostTask(Task<3>);
    r.RunPendingTasks();
  }
  vf_again();
  const int n = vf_log_size();
  const long d = Delay();
  r.PostDelayedTask(Task<0>, nanoseconds(d));
  r.PostDelayedTask(Task<1>, nanoseconds(d));
  r.PostDelayedTask(Task<2>, nanoseconds(d));
  g_now = g_now + d;
  r.RunPendingTasks();
  vf_assert(vf_log_size() == n + 3, "after many rounds a due task did not run once");
  vf_assert(vf_logged(n, 0, 0) && vf_logged(n + 1, 1, 0) && vf_logged(n + 2, 2, 0),
            "after many rounds tasks due at the same time do not run in posting order");
  vf_reach("end");
}

void P01_many_between() {
  Begin();
  Runner r;
  const long d = Delay();
  vf_assume(d > 0);
  r.PostDelayedTask(Task<0>, nanoseconds(d));
  for (int i = 0; i < 3; i++) {
    vf_mark();
    r.PostTask(Task<3>);
    r.RunPendingTasks();
  }
  vf_again();
  const int n = vf_log_size();
  r.PostDelayedTask(Task<1>, nanoseconds(d));
  g_now = g_now + d;
  r.RunPendingTasks();
  vf_assert(vf_log_size() == n + 2, "after many rounds a due task did not run once");
  vf_assert(vf_logged(n, 0, 0) && vf_logged(n + 1, 1, 0),
            "after many rounds tasks due at the same time do not run in posting order");
  vf_reach("end");
}
