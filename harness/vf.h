// Vocabulary of the harness functions.  None of these functions has a body:
// harnesses are never compiled to code or run, they are "most general client"
// entry points for the abstract interpreter in engine/rsa.
#ifndef VF_H_
#define VF_H_

#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>

// The condition holds on every path that gets here.
void vf_assert(bool cond, const char* what);
// No path gets here (the code before has to abort).
void vf_unreachable(const char* what);
// Restrict the analysed executions.
void vf_assume(bool cond);
// From here on an abort is a violation / is allowed again.
void vf_no_abort(const char* what);
void vf_may_abort();
// There must be at least one path that gets here.
void vf_reach(const char* what);

// Arbitrary values.
bool vf_bool();
int vf_int();
long vf_long();
unsigned vf_unsigned();
std::size_t vf_size();
double vf_double();
char vf_char();
void* vf_ptr();
std::string vf_string();
std::string_view vf_view();

// Gives a standard container arbitrary content number |tag|; tells whether a
// container has exactly that content.
void vf_fill(void* container, int tag);
bool vf_is(const void* container, int tag);

// Does the text show that value, with at least the default precision?
bool vf_shows_f(const std::string_view& text, float v);
bool vf_shows_d(const std::string_view& text, double v);
bool vf_shows_l(const std::string_view& text, long double v);

// Lifetime of probe objects.
void vf_ctor(const void* p);
void vf_dtor(const void* p);
void vf_use(const void* p);
// Is the object inner part of the object outer?
bool vf_inside(const void* outer, const void* inner);
// Number of probes alive.
int vf_live();
// Call log: vf_log(tag, value) appends; vf_logged(i, tag, value) tells whether
// entry i of the log of this path is that; vf_log_size() is its length.
void vf_log(int tag, long value);
bool vf_logged(int i, int tag, long value);
int vf_log_size();

// Any number of repetitions: a step is done at least twice (three times
// if it may initialise something), each time after vf_mark();
// after vf_again() it has been done any number of times, also so often that a
// counter of the library that the step advances is at the end of its range.
void vf_mark();
void vf_again();

// From here on std::push_heap and std::pop_heap give a heap the layout that they
// give it in libstdc++; otherwise any heap is taken to be sorted.
void vf_exact_heaps();
// From here on another thread may drop an object's last reference before any
// std::weak_ptr::lock().
void vf_racy_weak();

namespace vf {

// An object with an identity (id) whose life is tracked; movable.
struct Probe {
  explicit Probe(int i) : id(i) { vf_ctor(this); }
  Probe(Probe&& o) noexcept : id(o.id) {
    vf_use(&o);
    vf_ctor(this);
    o.id = -1;
  }
  Probe& operator=(Probe&& o) noexcept {
    vf_use(this);
    vf_use(&o);
    id = o.id;
    o.id = -1;
    return *this;
  }
  Probe(const Probe&) = delete;
  Probe& operator=(const Probe&) = delete;
  ~Probe() {
    vf_dtor(this);
    id = -2;
  }
  int get() const {
    vf_use(this);
    return id;
  }
  int id;
};

}  // namespace vf

#endif  // VF_H_
