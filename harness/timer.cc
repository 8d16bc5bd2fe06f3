// T01, T02: one-shot timer on a task runner that records what is posted.
#include <chrono>
#include <functional>
#include <memory>
#include <utility>

#include "rst/task_runner/task_runner.h"
#include "rst/timer/one_shot_timer.h"
#include "vf.h"

namespace {

using std::chrono::nanoseconds;

struct Recorder : rst::TaskRunner {
  int n = 0;
  std::function<void()> tasks[5];
  nanoseconds delays[5];
  std::size_t repeats[5];

 protected:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds delay,
                                     std::size_t iterations) override {
    tasks[n] = std::move(task);
    delays[n] = delay;
    repeats[n] = iterations;
    n++;
  }
};

nanoseconds AnyDelay() { return nanoseconds(vf_long()); }

}  // namespace

// ---------------------------------------------------------------- T01
void T01_expire() {
  vf_no_abort("using a timer aborted");
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  vf_assert(!t.IsRunning(), "a new timer is running");
  const nanoseconds d = AnyDelay();
  t.Start([] { vf_log(1, 10); }, d);
  vf_assert(vf_log_size() == 0, "Start runs the task");
  vf_assert(t.IsRunning(), "a started timer is not running");
  vf_assert(r.n == 1, "Start does not post exactly one task");
  vf_assert(r.delays[0] == d, "Start posts with another delay");
  vf_assert(r.repeats[0] == 0, "Start posts a repeated task");
  r.tasks[0]();
  vf_assert(vf_log_size() == 1 && vf_logged(0, 1, 10), "an expired timer did not run its task once");
  vf_assert(!t.IsRunning(), "an expired timer is running");
  r.tasks[0]();
  vf_assert(vf_log_size() == 1, "a second expiry ran the task again");
  vf_assert(r.n == 1, "expiry posts again");
  vf_reach("end");
}

void T01_replace() {
  vf_no_abort("using a timer aborted");
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([] { vf_log(1, 10); }, AnyDelay());
  t.Start([] { vf_log(1, 20); }, AnyDelay());
  vf_assert(t.IsRunning(), "a restarted timer is not running");
  vf_assert(r.n == 2, "Start does not post exactly one task");
  r.tasks[0]();
  vf_assert(vf_log_size() == 0, "the expiry of a replaced start ran a task");
  vf_assert(t.IsRunning(), "the expiry of a replaced start stopped the timer");
  r.tasks[1]();
  vf_assert(vf_log_size() == 1 && vf_logged(0, 1, 20), "the replacing task did not run once");
  vf_assert(!t.IsRunning(), "an expired timer is running");
  r.tasks[0]();
  r.tasks[1]();
  vf_assert(vf_log_size() == 1, "a second expiry ran a task again");
  vf_reach("end");
}

void T01_replace_late() {
  // the replacing task expires first
  vf_no_abort("using a timer aborted");
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([] { vf_log(1, 10); }, AnyDelay());
  t.Start([] { vf_log(1, 20); }, AnyDelay());
  r.tasks[1]();
  vf_assert(vf_log_size() == 1 && vf_logged(0, 1, 20), "the replacing task did not run once");
  r.tasks[0]();
  vf_assert(vf_log_size() == 1, "the replaced task was run");
  t.Start([] { vf_log(1, 30); }, AnyDelay());
  r.tasks[0]();
  r.tasks[1]();
  vf_assert(vf_log_size() == 1 && t.IsRunning(), "a stale expiry fired a later start");
  r.tasks[2]();
  vf_assert(vf_log_size() == 2 && vf_logged(1, 1, 30), "the third task did not run once");
  vf_reach("end");
}

void T01_fire_now() {
  vf_no_abort("using a timer aborted");
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([] { vf_log(1, 10); }, AnyDelay());
  t.FireNow();
  vf_assert(vf_log_size() == 1 && vf_logged(0, 1, 10), "FireNow did not run the task once");
  vf_assert(!t.IsRunning(), "a fired timer is running");
  r.tasks[0]();
  vf_assert(vf_log_size() == 1, "the expiry after FireNow ran a task");
  t.Start([] { vf_log(1, 20); }, AnyDelay());
  vf_assert(t.IsRunning(), "a restarted timer is not running");
  r.tasks[0]();
  vf_assert(vf_log_size() == 1, "the expiry of a fired start ran the task of a later start");
  vf_assert(t.IsRunning(), "the expiry of a fired start stopped a later start");
  r.tasks[1]();
  vf_assert(vf_log_size() == 2 && vf_logged(1, 1, 20), "the later task did not run once");
  vf_assert(!t.IsRunning(), "an expired timer is running");
  vf_reach("end");
}

void T01_fire_now_not_running() {
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.FireNow();
#ifdef NDEBUG
  if (vf_log_size() != 0)
    vf_unreachable("FireNow of a stopped timer ran a task");
#else
  vf_unreachable("FireNow of a stopped timer does not abort");
#endif
}

void T01_destroyed() {
  vf_no_abort("using a timer aborted");
  Recorder r;
  std::unique_ptr<rst::OneShotTimer> t =
      std::make_unique<rst::OneShotTimer>([&r]() -> rst::TaskRunner& { return r; });
  t->Start([] { vf_log(1, 10); }, AnyDelay());
  const bool again = vf_bool();
  if (again)
    t->Start([] { vf_log(1, 20); }, AnyDelay());
  t.reset();
  vf_assert(vf_log_size() == 0, "destroying a timer ran its task");
  r.tasks[0]();
  if (again)
    r.tasks[1]();
  vf_assert(vf_log_size() == 0, "the task of a destroyed timer was run");
  vf_reach("end");
}

// Every sequence of operations against a specification automaton.
namespace {
void Script(const int steps) {
  vf_no_abort("using a timer aborted");
  Recorder r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  int current = -1;  // index of the pending start, if any
  int runs = 0;
  for (int i = 0; i < steps; i++) {
    if (vf_bool()) {
      const int id = r.n;
      t.Start([id] { vf_log(1, id); }, AnyDelay());
      vf_assert(r.n == id + 1, "Start does not post exactly one task");
      current = id;
    } else if (vf_bool()) {
      if (current >= 0) {
        t.FireNow();
        vf_assert(vf_log_size() == runs + 1 && vf_logged(runs, 1, current),
                  "FireNow did not run the pending task once");
        runs++;
        current = -1;
      }
    } else {
      for (int k = 0; k < r.n; k++) {
        if (vf_bool())
          continue;
        r.tasks[k]();
        if (k == current) {
          vf_assert(vf_log_size() == runs + 1 && vf_logged(runs, 1, current),
                    "an expiry did not run the pending task once");
          runs++;
          current = -1;
        }
        break;
      }
    }
    vf_assert(vf_log_size() == runs, "a task was run that is not pending");
    vf_assert(t.IsRunning() == (current >= 0), "IsRunning does not tell whether a task is pending");
  }
  vf_reach("end");
}
}  // namespace

void T01_script() { Script(3); }

#ifdef VF_THOROUGH
void T01_script_long() { Script(5); }
#endif

// However often the timer has been started since, the expiry of a start that was
// replaced is stale.
namespace {
struct LastOnly : rst::TaskRunner {
  std::function<void()> first, last;
  bool any = false;

 protected:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds, std::size_t) override {
    if (any)
      last = std::move(task);
    else
      first = std::move(task);
    any = true;
  }
};
}  // namespace

void T01_many() {
  vf_no_abort("using a timer aborted");
  LastOnly r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([] { vf_log(1, 10); }, AnyDelay());
  for (int i = 0; i < 3; i++) {
    vf_mark();
    t.Start([] { vf_log(1, 20); }, AnyDelay());
  }
  vf_again();
  for (int i = 0; i < 4; i++) {
    t.Start([] { vf_log(1, 30); }, AnyDelay());
    r.first();
    vf_assert(vf_log_size() == 0 && t.IsRunning(), "after many starts a stale expiry fires a later start");
  }
  r.last();
  vf_assert(vf_log_size() == 1 && vf_logged(0, 1, 30), "after many starts the pending task does not run once");
  vf_reach("end");
}

void T01_many_fired() {
  vf_no_abort("using a timer aborted");
  LastOnly r;
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([] { vf_log(1, 10); }, AnyDelay());
  for (int i = 0; i < 3; i++) {
    vf_mark();
    t.Start([] {}, AnyDelay());
    t.FireNow();
  }
  vf_again();
  for (int i = 0; i < 4; i++) {
    t.Start([] { vf_log(1, 30); }, AnyDelay());
    r.first();
    vf_assert(vf_log_size() == i && t.IsRunning(), "after many starts a stale expiry fires a later start");
    t.FireNow();
  }
  vf_assert(vf_log_size() == 4, "after many starts a fired task does not run once");
  vf_reach("end");
}

// ---------------------------------------------------------------- T02
namespace {
struct Env {
  Recorder r;
  std::unique_ptr<rst::OneShotTimer> t;
  Env() : t(std::make_unique<rst::OneShotTimer>([this]() -> rst::TaskRunner& { return r; })) {}
  void Fire(int i, bool now) {
    if (now)
      t->FireNow();
    else
      r.tasks[i]();
  }
};
}  // namespace

void T02_stopped_on_entry() {
  vf_no_abort("using a timer aborted");
  Env e;
  Env* p = &e;
  const bool now = vf_bool();
  e.t->Start(
      [p] {
        vf_assert(!p->t->IsRunning(), "the timer is running when its task is entered");
        vf_log(1, 1);
        // a stale expiry during the task
        p->r.tasks[0]();
        vf_log(1, 2);
      },
      AnyDelay());
  e.Fire(0, now);
  vf_assert(vf_log_size() == 2, "the task was run again from within itself");
  vf_assert(!e.t->IsRunning(), "the timer is running after its task");
  vf_reach("end");
}

void T02_restart_from_task() {
  vf_no_abort("using a timer aborted");
  Env e;
  Env* p = &e;
  const bool now = vf_bool();
  e.t->Start(
      [p] {
        vf_log(1, 1);
        p->t->Start([] { vf_log(1, 2); }, AnyDelay());
        vf_assert(p->t->IsRunning(), "a timer restarted by its task is not running");
      },
      AnyDelay());
  e.Fire(0, now);
  vf_assert(vf_log_size() == 1, "the task was not run once");
  vf_assert(e.t->IsRunning(), "a restart made by the task did not take effect");
  e.r.tasks[0]();
  vf_assert(vf_log_size() == 1, "a stale expiry ran a task");
  vf_assert(e.t->IsRunning(), "a stale expiry stopped the timer");
  vf_assert(e.r.n == 2, "the restart did not post exactly one task");
  const bool now2 = vf_bool();
  e.Fire(1, now2);
  vf_assert(vf_log_size() == 2 && vf_logged(1, 1, 2), "the task of the restart did not run once");
  vf_assert(!e.t->IsRunning(), "the timer is running after its task");
  vf_reach("end");
}

void T02_restart_and_fire_from_task() {
  vf_no_abort("using a timer aborted");
  Env e;
  Env* p = &e;
  const bool now = vf_bool();
  e.t->Start(
      [p] {
        vf_log(1, 1);
        p->t->Start([] { vf_log(1, 2); }, AnyDelay());
        p->t->FireNow();
        vf_log(1, 3);
      },
      AnyDelay());
  e.Fire(0, now);
  vf_assert(vf_log_size() == 3 && vf_logged(0, 1, 1) && vf_logged(1, 1, 2) && vf_logged(2, 1, 3),
            "a restart fired from the task did not run once");
  vf_assert(!e.t->IsRunning(), "the timer is running after its tasks");
  vf_reach("end");
}

void T02_destroy_from_task() {
  vf_no_abort("using a timer aborted");
  Env e;
  Env* p = &e;
  const bool now = vf_bool();
  vf::Probe probe(5);
  e.t->Start(
      [p] {
        vf_log(1, 1);
        p->t.reset();
        vf_log(1, 2);
      },
      AnyDelay());
  e.Fire(0, now);
  vf_assert(vf_log_size() == 2, "the task was not run once");
  vf_assert(e.t == nullptr, "internal");
  e.r.tasks[0]();
  vf_assert(vf_log_size() == 2, "the task of a destroyed timer was run");
  vf_reach("end");
}

// The task's own captures stay alive while it runs, even if the timer dies.
namespace {
struct Held {
  Held() { vf_ctor(this); }
  ~Held() { vf_dtor(this); }
};
}  // namespace

void T02_task_alive_while_running() {
  vf_no_abort("using a timer aborted");
  Env e;
  Env* p = &e;
  const bool now = vf_bool();
  const bool kill = vf_bool();
  {
    std::shared_ptr<Held> h = std::make_shared<Held>();
    e.t->Start(
        [p, h, kill] {
          if (kill)
            p->t.reset();
          else
            p->t->Start([] {}, AnyDelay());
          vf_use(h.get());
          vf_log(1, 1);
        },
        AnyDelay());
  }
  vf_assert(vf_live() == 1, "the task was dropped before it ran");
  e.Fire(0, now);
  vf_assert(vf_log_size() == 1, "the task was not run once");
  vf_assert(vf_live() == 0, "the task is kept after it ran");
  vf_reach("end");
}
