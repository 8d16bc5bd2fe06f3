// L02: file sinks.
#define VF_YIELD() vfs_yield()
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <thread>

#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/rtti/rtti.h"
#include "rst/logger/log_error.h"
#include "vfs.h"
#include "vfio.h"

namespace {

// A text message: no NUL, shorter than INT_MAX.
std::string Message() {
  const std::string m = vf_string();
  vf_no_nul(m);
  vf_assume(m.size() < static_cast<size_t>(std::numeric_limits<int>::max()));
  return m;
}

void Logged(const VfFile& f, const std::string& expected) {
  vf_assert(f.text == expected, "Log writes the message and one newline");
  vf_assert(!f.unflushed && !f.lost, "the message is flushed before Log returns");
}

template <class S>
void Lines(S* const sink, const VfFile& f) {
  const std::string a = Message(), b = Message();
  sink->Log(a);
  Logged(f, a + "\n");
  sink->Log(b);
  Logged(f, a + "\n" + b + "\n");
  vf_reach("two lines");
}

template <class S>
void Threads(S* const sink, const VfFile& f) {
  const std::string a = Message(), b = Message();
  std::thread t([sink, &b] { sink->Log(b); });
  sink->Log(a);
  vf_assert(!f.unflushed && !f.lost, "the message is flushed before Log returns");
  t.join();
  vf_assert(f.text == a + "\n" + b + "\n" || f.text == b + "\n" + a + "\n",
            "lines of different threads do not mix");
  vf_reach("two threads");
}

void NoFailures() { vf_no_abort("Log aborts though nothing failed"); }

std::FILE* Open() {
  std::FILE* const f = vfm_fopen("n", "w");
  vf_assume(f != nullptr);
  return f;
}

}  // namespace

void L02_ptr_lines() {
  Reset();
  rst::FilePtrSink sink(Open());
  Lines(&sink, g.file[0]);
}

void L02_ptr_no_failure() {
  Reset();
  rst::FilePtrSink sink(Open());
  g.max_failures = 0;
  vf_no_abort("Log aborts though nothing failed");
  Lines(&sink, g.file[0]);
}

void L02_name_lines() {
  Reset();
  rst::StatusOr<rst::FileNameSink::Ptr> s = rst::FileNameSink::Create("n");
  if (s.err()) {
    vf_assert(g.open_failures != 0, "a sink whose file can be opened is created");
    vf_assert(rst::dyn_cast<rst::LogError>(s.status().GetError()) != nullptr,
              "a file that cannot be opened yields LogError");
    vf_reach("not created");
    return;
  }
  vf_assert(g.files == 1 && g.file[0].name == "n" && g.file[0].writable,
            "the sink writes to the named file");
  Lines(s->get(), g.file[0]);
}

void L02_name_no_failure() {
  Reset();
  g.max_failures = 0;
  vf_no_abort("Log aborts though nothing failed");
  rst::StatusOr<rst::FileNameSink::Ptr> s = rst::FileNameSink::Create("n");
  if (s.err())
    return;
  Lines(s->get(), g.file[0]);
}

void L02_ptr_threads() {
  vfs_sched(2, 0, 0);
  Reset();
  g.max_failures = 1;
  rst::FilePtrSink sink(Open());
  Threads(&sink, g.file[0]);
}

void L02_name_threads() {
  vfs_sched(2, 0, 0);
  Reset();
  g.max_failures = 1;
  rst::StatusOr<rst::FileNameSink::Ptr> s = rst::FileNameSink::Create("n");
  if (s.err())
    return;
  Threads(s->get(), g.file[0]);
}
