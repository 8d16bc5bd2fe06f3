// F01: WriteFile, F02: WriteImportantFile, F03: ReadFile, F04: streams.
#include "rst/files/file_utils.h"

#include <memory>
#include <string>
#include <string_view>

#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/rtti/rtti.h"
#include "vfio.h"

namespace {

bool IsOpenError(const rst::Status& s) {
  return rst::dyn_cast<rst::FileOpenError>(s.GetError()) != nullptr;
}

bool IsFileError(const rst::Status& s) {
  return rst::dyn_cast<rst::FileError>(s.GetError()) != nullptr;
}

void AllClosed() {
  for (int i = 0; i < g.files; i++)
    vf_assert(g.file[i].closed, "every stream that was opened is closed");
}

}  // namespace

void F01_write() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  const std::string data = vf_string();
  vf_no_abort("WriteFile aborts");
  rst::Status s = rst::WriteFile(name.c_str(), data);
  if (!s.err()) {
    vf_reach("success");
    vf_assert(g.files == 1 && g.open_failures == 0, "success means that the file was opened");
    const VfFile& f = g.file[0];
    vf_assert(f.name == name, "the named file is written");
    vf_assert(f.truncates, "the file is truncated");
    vf_assert(f.text == data, "success means that all data was written, once and in order");
    vf_assert(f.closed && !f.lost, "success means that the file was flushed and closed without failure");
  } else {
    if (g.open_failures != 0) {
      vf_reach("open failure");
      vf_assert(IsOpenError(s), "a file that cannot be opened yields FileOpenError");
    } else {
      vf_reach("write failure");
      vf_assert(g.failures != 0, "success is not reported as failure");
      vf_assert(!IsOpenError(s) && IsFileError(s), "a failed write or close yields FileError");
    }
  }
}

void F02_write() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  const std::string data = vf_string();
  vf_no_abort("WriteImportantFile aborts");
  rst::Status s = rst::WriteImportantFile(name, data);
  for (int i = 0; i < g.files; i++) {
    const VfFile& f = g.file[i];
    vf_assert(vf_fresh_sibling(f.name, name),
              "only a fresh, randomly named file next to the destination is opened");
    vf_assert(f.exclusive, "the temporary file is created exclusively");
  }
  vf_assert(g.files <= 1, "one temporary file is created");
  if (g.renames != 0) {
    vf_reach("rename");
    vf_assert(g.renames == 1, "the destination is replaced by one rename");
    vf_assert(g.files == 1 && g.from == g.file[0].name, "the temporary file is renamed");
    vf_assert(g.to == name, "the temporary file is renamed to the destination");
    vf_assert(g.file[0].text == data && g.file[0].closed,
              "the temporary file is renamed only after all data was written and it was closed");
  }
  if (g.removes != 0) {
    vf_assert(!g.removed_other,
              "nothing is removed but the temporary file this call created, and only before the rename");
  }
  vf_assert(!g.touched, "no file is copied over or truncated");
  if (!s.err()) {
    vf_reach("success");
    vf_assert(g.renamed, "success means that the destination was replaced");
  } else {
    vf_assert(!g.renamed, "a replaced destination is not reported as failure");
    if (g.files != 0) {
      vf_reach("failure after creating the temporary file");
      vf_assert(g.removes != 0, "a failed call removes its temporary file");
    }
  }
}

// The name is drawn anew by every call, not once per process.
void F02_twice() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  {
    rst::Status s = rst::WriteImportantFile(name, "a");
    vf_assume(!s.err());
  }
  vf_assume(g.files == 1);
  rst::Status s = rst::WriteImportantFile(name, "b");
  (void)s.err();
  if (g.files == 2) {
    vf_assert(vf_distinct_random(g.file[0].name, g.file[1].name), "every call draws the name of its temporary file");
    vf_reach("second file");
  }
}

void F03_read() {
  Reset();
  g.must_progress = true;
  const std::string name = vf_string();
  vf_no_nul(name);
  vf_no_abort("ReadFile aborts");
  rst::StatusOr<std::string> s = rst::ReadFile(name);
  if (!s.err()) {
    vf_reach("success");
    vf_assert(g.files == 1, "success means that the file was opened");
    const VfFile& f = g.file[0];
    vf_assert(f.name == name, "the named file is read");
    vf_assert(f.readable && !f.writable, "the file is opened for reading only");
    vf_assert(f.eof, "success means that the end of the file was reached");
    vf_assert(f.closed && g.failures == 0, "no failure is reported as success");
    vf_assert(*s == f.text, "the value is what was read, all of it and nothing else");
    if (g.passes > 1)
      vf_reach("several reads");
  } else {
    if (g.open_failures != 0) {
      vf_reach("open failure");
      vf_assert(IsOpenError(s.status()), "a file that cannot be opened yields FileOpenError");
    } else {
      vf_reach("read failure");
      vf_assert(g.failures != 0, "success is not reported as failure");
      vf_assert(!IsOpenError(s.status()) && IsFileError(s.status()), "a failed read or close yields FileError");
    }
  }
}

void F04_write() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  rst::Status s = rst::WriteFile(name.c_str(), vf_view());
  (void)s.err();
  AllClosed();
  vf_reach("WriteFile");
}

void F04_write_important() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  rst::Status s = rst::WriteImportantFile(name, vf_view());
  (void)s.err();
  AllClosed();
  vf_reach("WriteImportantFile");
}

void F04_read() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  rst::StatusOr<std::string> s = rst::ReadFile(name);
  (void)s.err();
  AllClosed();
  vf_reach("ReadFile");
}

void F04_name_sink() {
  Reset();
  const std::string name = vf_string();
  vf_no_nul(name);
  {
    rst::StatusOr<rst::FileNameSink::Ptr> s =
        rst::FileNameSink::Create(name.c_str());
    if (!s.err()) {
      vf_assert(g.files == 1 && g.file[0].open, "a sink that could be created has an open stream");
      (*s)->Log("a");
      vf_reach("logged");
    } else {
      vf_reach("not created");
    }
  }
  AllClosed();
}

void F04_ptr_sink() {
  Reset();
  std::FILE* const f = vfm_fopen("n", "w");
  vf_assume(f != nullptr);
  const bool close = vf_bool();
  {
    rst::FilePtrSink sink(f, rst::FilePtrSink::ShouldClose(close));
    vf_assert(g.file[0].open, "a sink does not close its stream before it is destroyed");
    if (vf_bool())
      sink.Log("a");
    vf_assert(g.file[0].open, "a sink does not close its stream before it is destroyed");
  }
  vf_assert(g.file[0].closed == close, "a sink closes its stream if and only if asked to");
  vf_reach("destroyed");
}

void F04_ptr_sink_default() {
  Reset();
  std::FILE* const f = vfm_fopen("n", "w");
  vf_assume(f != nullptr);
  { rst::FilePtrSink sink(f); }
  vf_assert(g.file[0].closed, "by default a sink closes its stream");
  vf_reach("destroyed");
}
