// B01, B02: barrier under every mix of waiters and counting threads.
#include <cstddef>
#include <memory>
#include <thread>

#include "rst/threading/barrier.h"
#include "vfs.h"

namespace {

// Ghost counter: how many count-downs have begun.
int g_begun;
int g_released;

void Begin(int preemptions, int spurious) {
  g_begun = 0;
  g_released = 0;
  vf_no_abort("a barrier operation aborted");
  vfs_sched(preemptions, spurious, 0);
}

void Count(rst::Barrier* b) {
  g_begun++;
  b->CountDown();
}

void Wait(rst::Barrier* b, int n) {
  b->Wait();
  vf_assert(g_begun == n, "Wait returned before the counter reached zero");
  g_released++;
}

void CountAndWait(rst::Barrier* b, int n) {
  g_begun++;
  b->CountDownAndWait();
  vf_assert(g_begun == n, "CountDownAndWait returned before the counter reached zero");
  g_released++;
}

}  // namespace

// ---------------------------------------------------------------- B01
void B01_wait_one() {
  Begin(2, 1);
  rst::Barrier b(1);
  std::thread w([&b] { Wait(&b, 1); });
  std::thread c([&b] { Count(&b); });
  w.join();
  c.join();
  vf_assert(g_released == 1, "a waiter was not released");
  vf_reach("end");
}

void B01_two_waiters() {
  Begin(1, 1);
  rst::Barrier b(1);
  std::thread w1([&b] { Wait(&b, 1); });
  std::thread w2([&b] { Wait(&b, 1); });
  std::thread c([&b] { Count(&b); });
  vfs_quiesce();
  w1.join();
  w2.join();
  c.join();
  vf_assert(g_released == 2, "a waiter was not released");
  vf_reach("end");
}

void B01_count_two() {
  Begin(1, 1);
  rst::Barrier b(2);
  std::thread w([&b] { Wait(&b, 2); });
  std::thread c1([&b] { Count(&b); });
  std::thread c2([&b] { Count(&b); });
  vfs_quiesce();
  w.join();
  c1.join();
  c2.join();
  vf_assert(g_released == 1, "a waiter was not released");
  vf_reach("end");
}

void B01_count_and_wait() {
  Begin(1, 1);
  rst::Barrier b(2);
  std::thread c1([&b] { CountAndWait(&b, 2); });
  std::thread c2([&b] { CountAndWait(&b, 2); });
  vfs_quiesce();
  c1.join();
  c2.join();
  vf_assert(g_released == 2, "a counting waiter was not released");
  vf_reach("end");
}

void B01_count_and_wait_three() {
  Begin(0, 0);
  rst::Barrier b(3);
  std::thread c1([&b] { CountAndWait(&b, 3); });
  std::thread c2([&b] { CountAndWait(&b, 3); });
  std::thread c3([&b] { CountAndWait(&b, 3); });
  vfs_quiesce();
  c1.join();
  c2.join();
  c3.join();
  vf_assert(g_released == 3, "a counting waiter was not released");
  vf_reach("end");
}

void B01_mixed() {
  Begin(0, 0);
  rst::Barrier b(2);
  std::thread w([&b] { Wait(&b, 2); });
  std::thread c1([&b] { CountAndWait(&b, 2); });
  std::thread c2([&b] { Count(&b); });
  vfs_quiesce();
  w.join();
  c1.join();
  c2.join();
  vf_assert(g_released == 2, "a waiter was not released");
  vf_reach("end");
}

// Sequential: an arbitrary counter goes down by exactly one per call.
void B01_by_one() {
  Begin(0, 0);
  const std::size_t n = 3;
  rst::Barrier b(n);
  Count(&b);
  Count(&b);
  std::thread w([&b] { Wait(&b, 3); });
  vfs_yield();
  Count(&b);
  vfs_quiesce();
  vf_assert(g_released == 1, "the waiter was not released");
  b.Wait();
  w.join();
  vf_reach("end");
}

// Any counter a size_t holds: as long as fewer count-downs than that have
// begun, nobody gets through.
void B01_any_count() {
  Begin(1, 0);
  const std::size_t n = vf_size();
  vf_assume(n > 2);
  rst::Barrier b(n);
  Count(&b);
  Count(&b);
  std::thread w([&b] {
    b.Wait();
    vf_unreachable("Wait returned before the counter reached zero");
  });
  vfs_yield();
  vf_reach("end");
  vfs_cut();
}

void B01_any_count_and_wait() {
  Begin(1, 0);
  const std::size_t n = vf_size();
  vf_assume(n > 2);
  rst::Barrier b(n);
  Count(&b);
  std::thread c([&b] {
    b.CountDownAndWait();
    vf_unreachable("CountDownAndWait returned before the counter reached zero");
  });
  vfs_yield();
  vf_reach("end");
  vfs_cut();
}

#ifndef NDEBUG
void B01_below_zero() {
  rst::Barrier b(1);
  vf_no_abort("counting down to zero aborted");
  b.CountDown();
  vf_may_abort();
  b.CountDown();
  vf_unreachable("counting below zero does not abort in a debug build");
}

void B01_below_zero_wait() {
  rst::Barrier b(1);
  vf_no_abort("counting down to zero aborted");
  b.CountDownAndWait();
  vf_may_abort();
  b.CountDownAndWait();
  vf_unreachable("counting below zero does not abort in a debug build");
}

void B01_unfinished() {
  {
    rst::Barrier b(2);
    b.CountDown();
  }
  vf_unreachable("destroying an unfinished barrier does not abort in a debug build");
}
#endif

// ---------------------------------------------------------------- B02
// The waiting thread destroys the barrier as soon as its wait has returned.
void B02_wait() {
  Begin(2, 1);
  auto* b = new rst::Barrier(1);
  std::thread c([b] { b->CountDown(); });
  std::thread w([b] {
    b->Wait();
    delete b;
  });
  vfs_settle();
  c.join();
  w.join();
  vf_reach("end");
}

void B02_wait_two() {
  Begin(2, 0);
  auto* b = new rst::Barrier(2);
  std::thread c1([b] { b->CountDown(); });
  std::thread c2([b] { b->CountDown(); });
  std::thread w([b] {
    b->Wait();
    delete b;
  });
  vfs_settle();
  c1.join();
  c2.join();
  w.join();
  vf_reach("end");
}

void B02_count_and_wait() {
  Begin(2, 0);
  auto* b = new rst::Barrier(1);
  std::thread c([b] { b->CountDownAndWait(); });
  std::thread w([b] {
    b->Wait();
    delete b;
  });
  vfs_settle();
  c.join();
  w.join();
  vf_reach("end");
}

void B02_counter_destroys() {
  Begin(2, 0);
  auto* b = new rst::Barrier(2);
  std::thread c([b] { b->CountDown(); });
  std::thread w([b] {
    b->CountDownAndWait();
    delete b;
  });
  vfs_settle();
  c.join();
  w.join();
  vf_reach("end");
}
