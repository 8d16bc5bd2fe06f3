// P03, P04: library mutexes around tasks and around shared data.
#include <chrono>
#include <cstddef>
#include <functional>
#include <memory>
#include <thread>
#include <utility>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"
#include "rst/timer/one_shot_timer.h"
#include "vfs.h"

namespace {

using std::chrono::nanoseconds;

int g_a, g_b, g_tokens;
rst::TaskRunner* g_r;

void Begin(int preemptions, int spurious, int timeouts) {
  g_a = g_b = g_tokens = 0;
  g_r = nullptr;
  vf_no_abort("posting from a task aborted");
  vfs_sched(preemptions, spurious, timeouts);
}

void Task() {
  vf_assert(vfs_held() == 0, "a task runs while the library holds a mutex");
  g_a++;
}

void Reposting() {
  vf_assert(vfs_held() == 0, "a task runs while the library holds a mutex");
  g_a++;
  g_r->PostTask(Task);
}

// Destroying a task may post tasks as well.
struct Token {
  Token() { g_tokens++; }
  Token(const Token&) { g_tokens++; }
  Token(Token&& other) : alive(other.alive) { other.alive = false; }
  Token& operator=(const Token&) = delete;
  ~Token() {
    if (alive) {
      vf_assert(vfs_held() == 0, "a task is destroyed while the library holds a mutex");
      g_tokens--;
    }
  }
  void operator()() const { Task(); }

  bool alive = true;
};

rst::ThreadPoolTaskRunner* NewPool(std::size_t max) {
  const long alive = vf_long();
  vf_assume(alive > 0);
  return new rst::ThreadPoolTaskRunner(max, [] { return nanoseconds(0); }, nanoseconds(alive));
}

}  // namespace

// ---------------------------------------------------------------- P03
void P03_pool() {
  Begin(1, 0, 1);
  g_r = NewPool(1);
  g_r->PostTask(Task);
  g_r->PostTask(Task);
  vfs_settle();
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

void P03_pool_repost() {
  Begin(1, 0, 1);
  g_r = NewPool(1);
  g_r->PostTask(Reposting);
  vfs_settle();
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

void P03_pool_repost_delayed() {
  Begin(0, 0, 1);
  g_r = NewPool(1);
  g_r->PostTask([] {
    Task();
    g_r->PostDelayedTask(Task, nanoseconds(5));
    vf_reach("end");
  });
  vfs_settle();
}

void P03_pool_repeated() {
  Begin(0, 0, 1);
  g_r = NewPool(2);
  g_r->ApplyTaskSync([](std::size_t) { Task(); }, 2);
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

void P03_pool_delayed() {
  Begin(1, 0, 2);
  long now = 0;
  g_r = new rst::ThreadPoolTaskRunner(1, [&now] { return nanoseconds(now++); }, nanoseconds(5));
  g_r->PostDelayedTask(
      [] {
        Task();
        vf_reach("delayed");
      },
      nanoseconds(1));
  vfs_settle();
  vf_reach("end");
}

void P03_polling() {
  Begin(0, 0, 0);
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  g_r = &r;
  r.PostTask(Reposting);
  r.PostTask(Task);
  r.RunPendingTasks();
  vf_assert(g_a == 2, "a task did not run");
  r.RunPendingTasks();
  vf_assert(g_a == 3, "a task posted from a task did not run");
  vf_reach("end");
}

void P03_polling_delayed() {
  Begin(0, 0, 0);
  const long d = vf_long();
  vf_assume(d >= 0);
  long now = 0;
  rst::PollingTaskRunner r([&now] { return nanoseconds(now); });
  g_r = &r;
  r.PostDelayedTask(
      [] {
        Task();
        g_r->PostDelayedTask(Task, nanoseconds(1));
      },
      nanoseconds(d));
  now = d;
  r.RunPendingTasks();
  vf_assert(g_a == 1, "a task did not run");
  now = d + 1;
  r.RunPendingTasks();
  vf_assert(g_a == 2, "a task posted from a task did not run");
  vf_reach("end");
}

void P03_polling_repeated() {
  Begin(0, 0, 0);
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  g_r = &r;
  std::thread other([&r] { r.RunPendingTasks(); });
  g_r->ApplyTaskSync(
      [](std::size_t) {
        Task();
        g_r->PostTask([] {});
      },
      2);
  vf_assert(g_a == 2, "a task did not run");
  other.join();
  vf_reach("end");
}

void P03_timer() {
  Begin(0, 0, 0);
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  g_r = &r;
  rst::OneShotTimer t([]() -> rst::TaskRunner& { return *g_r; });
  t.Start(Reposting, nanoseconds(0));
  if (vf_bool())
    t.FireNow();
  r.RunPendingTasks();
  r.RunPendingTasks();
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

// A task that has run is destroyed with no mutex held, before its worker rests.
void P03_pool_destroyed() {
  Begin(1, 0, 1);
  g_r = NewPool(1);
  g_r->PostTask(Token());
  g_r->PostTask(Token());
  vfs_settle();
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

void P03_pool_repeated_destroyed() {
  Begin(0, 0, 1);
  g_r = NewPool(2);
  g_r->ApplyTaskSync([t = Token()](std::size_t) { t(); }, 2);
  vf_assert(g_a == 2, "a task did not run");
  vf_reach("end");
}

void P03_pool_delayed_destroyed() {
  Begin(0, 0, 2);
  long now = 0;
  g_r = new rst::ThreadPoolTaskRunner(1, [&now] { return nanoseconds(now++); }, nanoseconds(5));
  g_r->PostDelayedTask(Token(), nanoseconds(1));
  g_r->PostDelayedTask(Token(), nanoseconds(2));
  vfs_settle();
  vf_reach("end");
}

void P03_polling_destroyed() {
  Begin(0, 0, 0);
  long now = 0;
  {
    rst::PollingTaskRunner r([&now] { return nanoseconds(now); });
    r.PostTask(Token());
    r.PostDelayedTask(Token(), nanoseconds(2));
    r.PostDelayedTask(Token(), nanoseconds(1));
    r.PostDelayedTask(Token(), nanoseconds(9));
    r.RunPendingTasks();
    vf_assert(g_a == 1 && g_tokens == 3, "a task that has run is not destroyed");
    now = 2;
    r.RunPendingTasks();
    vf_assert(g_a == 3 && g_tokens == 1, "a task that has run is not destroyed");
  }
  vf_assert(g_tokens == 0, "a task is not destroyed with its runner");
  vf_reach("end");
}

void P03_barrier() {
  Begin(1, 0, 0);
  rst::Barrier* const b = new rst::Barrier(2);
  std::thread one([b] { b->CountDownAndWait(); });
  std::thread two([b] { b->Wait(); });
  b->CountDown();
  one.join();
  two.join();
  delete b;
  vf_reach("end");
}

// ---------------------------------------------------------------- P04
void P04_pool() {
  Begin(0, 0, 2);
  g_r = NewPool(2);
  std::thread other([] { g_r->PostTask(Reposting); });
  g_r->PostTask(Task);
  vfs_settle();
  other.join();
  vf_reach("end");
}

void P04_pool_repeated() {
  Begin(1, 0, 1);
  g_r = NewPool(2);
  g_r->ApplyTaskSync([](std::size_t) { Task(); }, 2);
  vf_reach("end");
}

void P04_pool_delayed() {
  Begin(1, 0, 2);
  long now = 0;
  g_r = new rst::ThreadPoolTaskRunner(1, [&now] { return nanoseconds(now++); }, nanoseconds(5));
  std::thread other([] { g_r->PostDelayedTask(Task, nanoseconds(1)); });
  g_r->PostDelayedTask(Task, nanoseconds(2));
  g_r->PostTask(Task);
  vfs_settle();
  other.join();
  vf_reach("end");
}

void P04_pool_destroyed() {
  Begin(1, 0, 1);
  long now = 0;
  g_r = new rst::ThreadPoolTaskRunner(1, [&now] { return nanoseconds(now++); }, nanoseconds(5));
  g_r->PostTask(Task);
  g_r->PostDelayedTask(Task, nanoseconds(1));
  delete g_r;
  vfs_settle();
  vf_reach("end");
}

void P04_polling() {
  Begin(0, 0, 0);
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  g_r = &r;
  std::thread other([] { g_r->PostTask(Reposting); });
  std::thread third([] { g_r->PostDelayedTask(Task, nanoseconds(3)); });
  r.PostTask(Task);
  vfs_flush();
  r.RunPendingTasks();
  r.PostTask(Task);
  r.RunPendingTasks();
  other.join();
  third.join();
  vf_reach("end");
}

void P04_polling_repeated() {
  Begin(0, 0, 0);
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  g_r = &r;
  std::thread other([&r] { r.RunPendingTasks(); });
  g_r->ApplyTaskSync([](std::size_t) { Task(); }, 2);
  other.join();
  vf_reach("end");
}

void P04_barrier() {
  Begin(1, 0, 0);
  rst::Barrier* const b = new rst::Barrier(3);
  std::thread one([b] { b->CountDownAndWait(); });
  std::thread two([b] { b->Wait(); });
  std::thread three([b] { b->CountDown(); });
  b->CountDown();
  one.join();
  two.join();
  three.join();
  delete b;
  vf_reach("end");
}
