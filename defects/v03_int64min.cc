// Value(INT64_MIN) is not rejected: exit 0 = aborted as it should.
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <limits>
#include "rst/value/value.h"
int main() {
  const pid_t p = fork();
  if (p == 0) { rst::Value v(std::numeric_limits<int64_t>::min()); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? 0 : 1;
}
