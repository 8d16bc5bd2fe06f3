// A task posted while the only worker times out is stranded.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include "rst/task_runner/thread_pool_task_runner.h"
int main() {
  rst::ThreadPoolTaskRunner r(1, [] { return std::chrono::steady_clock::now().time_since_epoch(); },
                              std::chrono::microseconds(30));
  std::atomic<int> n{0};
  for (int i = 1; i <= 60000; i++) {
    r.PostTask([&] { n++; });
    const auto t = std::chrono::steady_clock::now();
    while (n != i) {
      if (std::chrono::steady_clock::now() - t > std::chrono::seconds(2)) {
        std::printf("task %d was never run\n", i);
        return 1;
      }
    }
    std::this_thread::sleep_for(std::chrono::microseconds(i % 40));
  }
  return 0;
}
