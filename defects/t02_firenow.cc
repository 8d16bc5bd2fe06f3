// FireNow cancels a restart made by the task itself.
#include <cstdio>
#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"
int main() {
  std::chrono::nanoseconds now{0};
  rst::PollingTaskRunner r([&] { return now; });
  rst::OneShotTimer t([&]() -> rst::TaskRunner& { return r; });
  bool ran = false;
  t.Start([&] { t.Start([&] { ran = true; }, std::chrono::seconds(1)); }, std::chrono::seconds(1));
  t.FireNow();
  const bool running = t.IsRunning();
  now += std::chrono::seconds(5);
  r.RunPendingTasks();
  std::printf("running=%d ran=%d\n", running, ran);
  return running && ran ? 0 : 1;
}
