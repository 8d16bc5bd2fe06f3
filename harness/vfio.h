// A model of C streams and of the file system, written as ordinary C++ the
// analysis follows instead of the C library (calls of NAME go to vfm_NAME).
// Every operation may fail.
#ifndef VFIO_H_
#define VFIO_H_

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <filesystem>
#include <string>
#include <system_error>

#include "vf.h"

#if !defined(VF_YIELD)
#define VF_YIELD() (void)0
#endif

// The text of a NUL-terminated string as an object.
// Is |temp| the name of |dest| in the same directory, extended by random data?
bool vf_distinct_random(const std::string& a, const std::string& b);
bool vf_fresh_sibling(const std::string& temp, const std::string& dest);
// The text does not contain '\0'.
void vf_no_nul(const std::string_view& text);

struct VfFile {
  bool used = false;
  bool open = false;
  bool closed = false;
  bool lost = false;  // a flush or close failed
  bool eof = false;
  bool error = false;
  bool readable = false;
  bool writable = false;
  bool truncates = false;
  bool exclusive = false;
  bool unflushed = false;
  bool idle = false;  // the last read asked for nothing
  std::string name;
  std::string text;  // what was written or read so far
};

struct VfWorld {
  VfFile file[3];
  int files = 0;
  int open_failures = 0;
  int passes = 0;
  int max_passes = 3;
  int renames = 0;
  bool renamed = false;
  std::string from;
  std::string to;
  int removes = 0;
  bool removed_other = false;  // something else than the one temporary file
  bool touched = false;        // a file was changed other than by its stream
  int max_failures = 3;
  bool must_progress = false;
  int failures = 0;  // writes, reads, flushes and closes that failed
};

static VfWorld g;

static void Reset() { g = VfWorld(); }

static VfFile* ToVf(std::FILE* f) { return reinterpret_cast<VfFile*>(f); }
static std::FILE* ToFile(VfFile* f) { return reinterpret_cast<std::FILE*>(f); }

static void Usable(std::FILE* f) {
  vf_assert(f != nullptr, "no stream is used that could not be opened");
  vf_assert(ToVf(f)->open, "no stream is used after it has been closed");
}

std::FILE* vfm_fopen(const char* name, const char* mode) {
  if (vf_bool()) {
    g.open_failures++;
    return nullptr;
  }
  vf_assume(g.files < 3);
  VfFile* const f = &g.file[g.files++];
  f->used = true;
  f->open = true;
  f->name = name;
  for (int i = 0; mode[i] != '\0'; i++) {
    if (mode[i] == 'r')
      f->readable = true;
    if (mode[i] == 'w')
      f->writable = f->truncates = true;
    if (mode[i] == 'a')
      f->writable = true;
    if (mode[i] == '+')
      f->readable = f->writable = true;
    if (mode[i] == 'x')
      f->exclusive = true;
  }
  return ToFile(f);
}

int vfm_fclose(std::FILE* file) {
  Usable(file);
  VfFile* const f = ToVf(file);
  f->open = false;
  f->closed = true;
  if (vf_bool()) {
    f->lost = true;
    vf_assume(g.failures++ < g.max_failures);
    return EOF;
  }
  f->unflushed = false;
  return 0;
}

int vfm_fflush(std::FILE* file) {
  Usable(file);
  VF_YIELD();
  VfFile* const f = ToVf(file);
  if (vf_bool()) {
    f->lost = true;
    vf_assume(g.failures++ < g.max_failures);
    return EOF;
  }
  f->unflushed = false;
  return 0;
}

// Writes |size| bytes or fewer.
static std::size_t Put(std::FILE* file, const char* data, std::size_t size) {
  Usable(file);
  VF_YIELD();
  VfFile* const f = ToVf(file);
  vf_assert(f->writable, "data is written only to a stream opened for writing");
  f->unflushed = true;
  if (vf_bool()) {
    const std::size_t r = vf_size();
    vf_assume(r < size);
    f->text.append(data, r);
    f->error = true;
    vf_assume(g.failures++ < g.max_failures);
    return r;
  }
  f->text.append(data, size);
  return size;
}

std::size_t vfm_fwrite(const void* data, std::size_t size, std::size_t n,
                       std::FILE* file) {
  const std::size_t r = Put(file, static_cast<const char*>(data), size * n);
  return size == 1 ? r : r / size;
}

int vfm_fputs(const char* s, std::FILE* file) {
  const std::string text(s);
  return Put(file, text.data(), text.size()) == text.size() ? 1 : EOF;
}

int vfm_fputc(int c, std::FILE* file) {
  const char ch = static_cast<char>(c);
  return Put(file, &ch, 1) == 1 ? c : EOF;
}

int vfm_putc(int c, std::FILE* file) { return vfm_fputc(c, file); }

// fprintf comes here with the text it writes.
int vfm_fput(std::FILE* file, const char* data, std::size_t size) {
  if (Put(file, data, size) != size)
    return -1;
  return static_cast<int>(size);
}

std::size_t vfm_fread(void* data, std::size_t size, std::size_t n,
                      std::FILE* file) {
  Usable(file);
  VfFile* const f = ToVf(file);
  vf_assert(f->readable, "data is read only from a stream opened for reading");
  vf_assume(g.passes++ < g.max_passes);
  if (size * n == 0 && f->idle) {
    if (g.must_progress)
      vf_unreachable("a file is read by asking for nothing again and again");
    vf_assume(false);
  }
  f->idle = size * n == 0;
  const std::string chunk = vf_string();
  std::size_t r = n;
  if (vf_bool()) {
    r = vf_size();
    vf_assume(r < n);
    if (vf_bool()) {
      f->eof = true;
    } else {
      f->error = true;
      vf_assume(g.failures++ < g.max_failures);
    }
  }
  vf_assume(chunk.size() == r * size);
  chunk.copy(static_cast<char*>(data), r * size);
  f->text.append(chunk);
  return r;
}

int vfm_feof(std::FILE* file) {
  Usable(file);
  return ToVf(file)->eof ? 1 : 0;
}

int vfm_ferror(std::FILE* file) {
  Usable(file);
  return ToVf(file)->error ? 1 : 0;
}

static bool Renames(const std::string& from, const std::string& to) {
  g.renames++;
  g.from = from;
  g.to = to;
  for (int i = 0; i < 3; i++) {
    vf_assert(!g.file[i].open, "no file is renamed before every stream is closed");
    vf_assert(!g.file[i].lost, "no file is renamed after a failed flush or close");
  }
  if (vf_bool())
    return false;
  g.renamed = true;
  return true;
}

static bool Removes(const std::string& name) {
  g.removes++;
  if (g.files != 1 || g.renamed || !(name == g.file[0].name))
    g.removed_other = true;
  return vf_bool();
}

void vfm_fs_rename(const std::filesystem::path& from,
                   const std::filesystem::path& to, std::error_code& ec) {
  if (Renames(from.native(), to.native()))
    ec.clear();
  else
    ec = std::make_error_code(std::errc::io_error);
}

// The overloads without an error code throw.
void vfm_fs_rename(const std::filesystem::path& from, const std::filesystem::path& to) {
  if (!Renames(from.native(), to.native()))
    std::abort();
}

int vfm_rename(const char* from, const char* to) {
  return Renames(from, to) ? 0 : -1;
}

static bool Touches() {
  g.touched = true;
  return vf_bool();
}

bool vfm_fs_copy_file(const std::filesystem::path&, const std::filesystem::path&,
                      std::filesystem::copy_options, std::error_code& ec) {
  const bool ok = Touches();
  if (ok)
    ec.clear();
  else
    ec = std::make_error_code(std::errc::io_error);
  return ok;
}

bool vfm_fs_copy_file(const std::filesystem::path& from, const std::filesystem::path& to,
                      std::error_code& ec) {
  return vfm_fs_copy_file(from, to, std::filesystem::copy_options::none, ec);
}

void vfm_fs_copy(const std::filesystem::path&, const std::filesystem::path&,
                 std::filesystem::copy_options, std::error_code& ec) {
  if (Touches())
    ec.clear();
  else
    ec = std::make_error_code(std::errc::io_error);
}

void vfm_fs_resize_file(const std::filesystem::path&, std::uintmax_t, std::error_code& ec) {
  if (Touches())
    ec.clear();
  else
    ec = std::make_error_code(std::errc::io_error);
}

bool vfm_fs_exists(const std::filesystem::path&, std::error_code& ec) {
  ec.clear();
  return vf_bool();
}

bool vfm_fs_remove(const std::filesystem::path& name, std::error_code& ec) {
  const bool ok = Removes(name.native());
  if (ok)
    ec.clear();
  else
    ec = std::make_error_code(std::errc::io_error);
  return ok;
}

bool vfm_fs_remove(const std::filesystem::path& name) {
  if (!Removes(name.native()))
    std::abort();
  return vf_bool();
}

int vfm_remove(const char* name) { return Removes(name) ? 0 : -1; }
int vfm_unlink(const char* name) { return Removes(name) ? 0 : -1; }

std::uintmax_t vfm_fs_file_size(const std::filesystem::path&,
                                std::error_code& ec) {
  if (vf_bool()) {
    ec = std::make_error_code(std::errc::io_error);
    return static_cast<std::uintmax_t>(-1);
  }
  ec.clear();
  // A file's size is an off_t.
  const std::size_t r = vf_size();
  vf_assume(r <= static_cast<std::size_t>(PTRDIFF_MAX));
  return r;
}

#endif  // VFIO_H_
