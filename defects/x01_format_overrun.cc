// Format with fewer placeholders than arguments wrote past the end of its
// buffer before the mismatch was detected (debug build, AddressSanitizer:
// heap-buffer-overflow; fixed: aborts on the mismatch only).
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>

#include "rst/strings/format.h"

int main() {
  const pid_t p = fork();
  if (p == 0) {
    (void)freopen("/dev/null", "w", stderr);
    // 40 characters, one empty argument: 38 bytes were allocated.
    (void)rst::Format("0123456789012345678901234567890123456789", {""});
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
    return std::puts("aborted on the mismatch"), 0;
  std::printf("not aborted by the check: status %d\n", st);
  return 1;
}
