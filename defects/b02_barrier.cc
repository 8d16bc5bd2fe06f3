// CountDown notifies after unlocking: the waiter may have destroyed the
// barrier by then (run with -fsanitize=thread).
#include <memory>
#include <thread>
#include "rst/threading/barrier.h"
int main() {
  for (int i = 0; i < 3000; i++) {
    auto b = std::make_unique<rst::Barrier>(1);
    rst::Barrier* p = b.get();
    std::thread t([p] { p->CountDown(); });
    p->Wait();
    b.reset();
    t.join();
  }
}
