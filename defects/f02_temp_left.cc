// A write that fails (file size limit) leaves the temporary file behind.
#include <signal.h>
#include <sys/resource.h>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <string>
#include "rst/files/file_utils.h"
namespace fs = std::filesystem;
int main() {
  char dir[] = "/tmp/f02.XXXXXX";
  if (!mkdtemp(dir)) return 2;
  signal(SIGXFSZ, SIG_IGN);
  rlimit l{1000, 1000}; setrlimit(RLIMIT_FSIZE, &l);
  auto s = rst::WriteImportantFile(fs::path(dir) / "f", std::string(100000, 'x'));
  const bool err = s.err();
  int n = 0;
  for (auto& e : fs::directory_iterator(dir)) { n++; fs::remove(e.path()); }
  fs::remove(dir);
  std::printf("err=%d files left=%d\n", err, n);
  return err && n == 0 ? 0 : 1;
}
