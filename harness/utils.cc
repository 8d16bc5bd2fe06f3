// Y01..Y04: strong typedefs, NoDestructor, RST_DEFER, small utilities.
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "rst/bind/bind_helpers.h"
#include "rst/defer/defer.h"
#include "rst/memory/memory.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/stl/algorithm.h"
#include "rst/stl/function.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"
#include "rst/type/type.h"
#include "vf.h"

namespace {

using vf::Probe;

using Int = rst::Type<class IntTag, int>;
using Dbl = rst::Type<class DblTag, double>;
using Str = rst::Type<class StrTag, std::string>;

// An underlying type without any law: every comparison is an unrelated fact.
struct Odd {
  int i = 0;
};
bool odd_eq(int, int);
bool odd_ne(int, int);
bool odd_lt(int, int);
bool odd_gt(int, int);
bool odd_le(int, int);
bool odd_ge(int, int);

}  // namespace

// ---------------------------------------------------------------- Y01
void Y01_int() {
  vf_no_abort("using a strong type aborted");
  const int x = vf_int(), y = vf_int();
  const Int a(x), b(y);
  vf_assert(a.value() == x && static_cast<int>(b) == y, "the value is not the given one");
  vf_assert((a == b) == (x == y), "== disagrees with the values");
  vf_assert((a != b) == (x != y), "!= disagrees with the values");
  vf_assert((a < b) == (x < y), "< disagrees with the values");
  vf_assert((a > b) == (x > y), "> disagrees with the values");
  vf_assert((a <= b) == (x <= y), "<= disagrees with the values");
  vf_assert((a >= b) == (x >= y), ">= disagrees with the values");
  vf_reach("end");
}

void Y01_double() {
  const double x = vf_double(), y = vf_double();
  const Dbl a(x), b(y);
  vf_assert((a == b) == (x == y), "== disagrees with the values");
  vf_assert((a != b) == (x != y), "!= disagrees with the values");
  vf_assert((a < b) == (x < y), "< disagrees with the values");
  vf_assert((a > b) == (x > y), "> disagrees with the values");
  vf_assert((a <= b) == (x <= y), "<= disagrees with the values");
  vf_assert((a >= b) == (x >= y), ">= disagrees with the values");
  vf_reach("end");
}

void Y01_string() {
  const std::string x = vf_string(), y = vf_string();
  const Str a(x), b(y);
  vf_assert(a.value() == x, "the value is not the given one");
  vf_assert((a == b) == (x == y), "== disagrees with the values");
  vf_assert((a != b) == (x != y), "!= disagrees with the values");
  vf_assert((a < b) == (x < y), "< disagrees with the values");
  vf_assert((a > b) == (x > y), "> disagrees with the values");
  vf_assert((a <= b) == (x <= y), "<= disagrees with the values");
  vf_assert((a >= b) == (x >= y), ">= disagrees with the values");
  std::string z = x;
  const Str c(std::move(z));
  vf_assert(c == a, "building from an rvalue changes the value");
  vf_reach("end");
}

void Y01_copy() {
  const int x = vf_int(), y = vf_int();
  Int a(x), b(y);
  Int c = a;
  vf_assert(c.value() == x && a.value() == x, "copying changes the value");
  c = b;
  vf_assert(c.value() == y && b.value() == y, "assigning changes the value");
  Int d = std::move(c);
  vf_assert(d.value() == y, "moving changes the value");
  const int k = vf_int();
  const int& r = k;
  const Int e(r);
  vf_assert(e.value() == x == (k == x), "building from an lvalue changes the value");
  vf_reach("end");
}

void Y01_hash() {
  const int x = vf_int();
  const std::string s = vf_string();
  const Int a(x);
  const Str b(s);
  vf_assert(std::hash<Int>()(a) == std::hash<int>()(x), "the hash disagrees with the value's");
  vf_assert(std::hash<Str>()(b) == std::hash<std::string>()(s), "the hash disagrees with the string's");
  vf_reach("end");
}

// ---------------------------------------------------------------- Y02
namespace {
struct Two {
  Two(int a, std::unique_ptr<int> p, const int& r) : a(a), p(std::move(p)), r(&r) { vf_ctor(this); }
  ~Two() { vf_dtor(this); }
  int a;
  std::unique_ptr<int> p;
  const int* r;
};
struct Copy {
  Copy(int i) : i(i) { vf_ctor(this); }
  Copy(const Copy& c) : i(c.i), copied(1) { vf_ctor(this); }
  Copy(Copy&& c) noexcept : i(c.i), copied(2) { c.i = -1; vf_ctor(this); }
  ~Copy() { vf_dtor(this); }
  int i;
  int copied = 0;
};
}  // namespace

void Y02_construct() {
  const int a = vf_int();
  const int r = 7;
  auto p = std::make_unique<int>(5);
  int* raw = p.get();
  {
    rst::NoDestructor<Two> n(a, std::move(p), r);
    vf_assert(vf_live() == 1, "not exactly one object is constructed");
    vf_assert(n->a == a && n->p.get() == raw && n->r == &r, "the object was not built from the given arguments");
    vf_assert(&*n == n.get().get(), "operator* and get() yield different objects");
    vf_assert(n.operator->().get() == n.get().get(), "operator-> and get() yield different objects");
    const auto& c = n;
    vf_assert(&*c == n.get().get() && c.get().get() == n.get().get() && c.operator->().get() == n.get().get(),
              "the const accessors yield another object");
    vf_use(n.get().get());
    vf_assert(vf_inside(&n, n.get().get()), "the object is not inside the wrapper");
    vf_assert(vf_live() == 1, "an accessor constructed or destroyed an object");
  }
  vf_assert(vf_live() == 1, "the object was destroyed with its wrapper");
  vf_reach("end");
}

namespace {
// Constructed differently by braces.
struct Listed {
  Listed(int a, int b) : a(a), b(b) {}
  Listed(std::initializer_list<int>) : listed(true) {}
  int a = 0;
  int b = 0;
  bool listed = false;
};
}  // namespace

void Y02_parentheses() {
  const int a = vf_int();
  const int b = vf_int();
  rst::NoDestructor<Listed> n(a, b);
  vf_assert(!n->listed && n->a == a && n->b == b, "the arguments were not given to the constructor they name");
  vf_reach("end");
}

void Y02_copy_in() {
  const int a = vf_int();
  const Copy c(a);
  {
    rst::NoDestructor<Copy> n(c);
    vf_assert(vf_live() == 2, "not exactly one object is constructed");
    vf_assert(n->i == a && n->copied == 1, "an lvalue was not copied");
  }
  vf_assert(vf_live() == 2, "the object was destroyed with its wrapper");
  Copy d(a);
  {
    rst::NoDestructor<Copy> n(std::move(d));
    vf_assert(vf_live() == 4, "not exactly one object is constructed");
    vf_assert(n->i == a && n->copied == 2, "an rvalue was not moved");
  }
  vf_assert(vf_live() == 4, "the object was destroyed with its wrapper");
  Copy e(a);
  {
    rst::NoDestructor<Copy> n(e);
    vf_assert(n->i == a && n->copied == 1 && e.i == a, "a non-const lvalue was not copied");
  }
  {
    rst::NoDestructor<Copy> n(a);
    vf_assert(n->i == a && n->copied == 0, "an argument was not passed on");
  }
  vf_reach("end");
}

// ---------------------------------------------------------------- Y03
void Y03_fallthrough() {
  {
    RST_DEFER([] { vf_log(1, 1); });
    vf_assert(vf_log_size() == 0, "the action ran before the end of the scope");
    vf_log(2, 0);
    vf_assert(vf_log_size() == 1, "the action ran before the end of the scope");
  }
  vf_assert(vf_log_size() == 2 && vf_logged(1, 1, 1), "the action did not run exactly once at the end of the scope");
  vf_reach("end");
}

namespace {
struct LogDtor {
  explicit LogDtor(int i) : i(i) {}
  ~LogDtor() { vf_log(9, i); }
  int i;
};
int Returns(bool early) {
  RST_DEFER([] { vf_log(1, 1); });
  if (early)
    return 1;
  vf_log(2, 0);
  return 2;
}
}  // namespace

void Y03_order() {
  {
    LogDtor before(1);
    RST_DEFER([] { vf_log(1, 1); });
    LogDtor after(2);
    RST_DEFER([] { vf_log(1, 2); });
    LogDtor last(3);
  }
  vf_assert(vf_log_size() == 5, "an action did not run exactly once");
  vf_assert(vf_logged(0, 9, 3), "a later object outlives the action");
  vf_assert(vf_logged(1, 1, 2) && vf_logged(2, 9, 2) && vf_logged(3, 1, 1) && vf_logged(4, 9, 1),
            "the actions did not run in scope order");
  vf_reach("end");
}

void Y03_return() {
  const bool early = vf_bool();
  const int r = Returns(early);
  if (early) {
    vf_assert(r == 1 && vf_log_size() == 1 && vf_logged(0, 1, 1), "the action did not run once on an early return");
  } else {
    vf_assert(r == 2 && vf_log_size() == 2 && vf_logged(1, 1, 1), "the action did not run once on return");
  }
  vf_reach("end");
}

void Y03_loop() {
  int n = 0;
  for (int i = 0; i < 3; i++) {
    RST_DEFER([&n] { n++; });
    if (i == 0)
      continue;
    if (i == 2)
      break;
    vf_assert(n == 1, "the action of an earlier iteration did not run once");
  }
  vf_assert(n == 3, "the action did not run once per iteration");
  vf_reach("end");
}

void Y03_lvalue() {
  int n = 0;
  auto f = [&n] { n++; };
  {
    RST_DEFER(f);
    vf_assert(n == 0, "the action ran before the end of the scope");
  }
  vf_assert(n == 1, "an action given as an lvalue did not run once");
  std::function<void()> g = [&n] { n += 10; };
  {
    RST_DEFER(g);
  }
  vf_assert(n == 11, "a std::function action did not run once");
  {
    RST_DEFER(std::function<void()>([&n] { n += 100; }));
    vf_assert(n == 11, "the action ran before the end of the scope");
  }
  vf_assert(n == 111, "a temporary std::function action did not run once");
  vf_reach("end");
}

// ---------------------------------------------------------------- Y04
void Y04_take_function() {
  int n = 0;
  std::function<int(int)> f = [&n](int i) {
    n++;
    return i + 1;
  };
  auto g = rst::TakeFunction(std::move(f));
  vf_assert(f == nullptr, "the source is not empty");
  vf_assert(g != nullptr, "the function was dropped");
  const int a = vf_int();
  vf_assume(a < 1000);
  vf_assert(g(a) == a + 1 && n == 1, "another function is returned");
  std::function<int(int)> e;
  auto h = rst::TakeFunction(std::move(e));
  vf_assert(h == nullptr && e == nullptr, "an empty function became a function");
  vf_reach("end");
}

void Y04_vector_builder() {
  const int a = vf_int(), b = vf_int(), c = vf_int();
  const std::vector<int> v = rst::VectorBuilder<int>().emplace_back(a).emplace_back(b).emplace_back(c).Build();
  vf_assert(v.size() == 3, "elements were dropped or added");
  vf_assert(v[0] == a && v[1] == b && v[2] == c, "an element is wrong or out of order");
  const std::vector<int> w = rst::VectorBuilder<int>().Build();
  vf_assert(w.empty(), "an empty builder builds elements");
  vf_reach("end");
}

void Y04_vector_builder_move() {
  auto p = std::make_unique<int>(1);
  auto q = std::make_unique<int>(2);
  int* const rp = p.get();
  int* const rq = q.get();
  std::vector<std::unique_ptr<int>> v =
      rst::VectorBuilder<std::unique_ptr<int>>().emplace_back(std::move(p)).emplace_back(std::move(q)).Build();
  vf_assert(v.size() == 2 && v[0].get() == rp && v[1].get() == rq, "move-only elements were dropped or reordered");
  vf_reach("end");
}

void Y04_reversed() {
  std::vector<int> v;
  const int a = vf_int(), b = vf_int(), c = vf_int();
  v.push_back(a);
  v.push_back(b);
  v.push_back(c);
  for (int& i : rst::Reversed(v))
    vf_log(1, i);
  vf_assert(vf_log_size() == 3, "an element was not visited exactly once");
  vf_assert(vf_logged(0, 1, c) && vf_logged(1, 1, b) && vf_logged(2, 1, a), "the order is not from last to first");
  for (int& i : rst::Reversed(v))
    i = 5;
  vf_assert(v[0] == 5 && v[1] == 5 && v[2] == 5, "the range was copied");
  const std::vector<int>& cv = v;
  auto r = rst::Reversed(cv);
  vf_assert(&*r.begin() == &v[2], "the const range was copied");
  std::vector<int> e;
  for (int& i : rst::Reversed(e))
    vf_log(2, i);
  vf_assert(vf_log_size() == 3, "an empty range has an element");
  vf_reach("end");
}

namespace {

// A range that is not a standard container, and a model of each algorithm that records how it was called.
int g_storage[4];
struct Range {
  int* begin() { return g_storage; }
  int* end() { return g_storage + 4; }
  const int* begin() const { return g_storage; }
  const int* end() const { return g_storage + 4; }
};
struct Cmp {
  explicit Cmp(int k) : k(k) {}
  bool operator()(int, int) const;
  bool operator()(int) const;
  int k;
};
struct Gen {
  using result_type = unsigned;
  static constexpr unsigned min() { return 0; }
  static constexpr unsigned max() { return 0xffffffffu; }
  unsigned operator()();
};
enum { kSort = 100, kStable, kFind, kPush, kPop, kSorted, kShuffle };
void Record(int what, const int* b, const int* e, int k) {
  vf_assert(b == g_storage && e == g_storage + 4, "an algorithm was not applied to the whole range");
  vf_log(what, k);
}
}  // namespace
void vfm_sort(int* b, int* e) { Record(kSort, b, e, 0); }
void vfm_sort(int* b, int* e, Cmp c) { Record(kSort, b, e, c.k); }
void vfm_stable_sort(int* b, int* e) { Record(kStable, b, e, 0); }
void vfm_stable_sort(int* b, int* e, Cmp c) { Record(kStable, b, e, c.k); }
int* vfm_find_if(int* b, int* e, Cmp c) {
  Record(kFind, b, e, c.k);
  return b + 2;
}
void vfm_push_heap(int* b, int* e, Cmp c) { Record(kPush, b, e, c.k); }
void vfm_pop_heap(int* b, int* e, Cmp c) { Record(kPop, b, e, c.k); }
bool vfm_is_sorted(const int* b, const int* e, Cmp c) {
  Record(kSorted, b, e, c.k);
  return vf_bool();
}
void vfm_shuffle(int* b, int* e, Gen&) { Record(kShuffle, b, e, 0); }

void Y04_algorithms() {
  Range r;
  const int k = vf_int();
  rst::c_sort(r);
  vf_assert(vf_log_size() == 1 && vf_logged(0, kSort, 0), "c_sort is not std::sort");
  rst::c_sort(r, Cmp(k));
  vf_assert(vf_log_size() == 2 && vf_logged(1, kSort, k), "c_sort is not std::sort with the given comparison");
  rst::c_stable_sort(r);
  vf_assert(vf_log_size() == 3 && vf_logged(2, kStable, 0), "c_stable_sort is not std::stable_sort");
  rst::c_stable_sort(r, Cmp(k));
  vf_assert(vf_log_size() == 4 && vf_logged(3, kStable, k), "c_stable_sort is not std::stable_sort with the comparison");
  int* f = rst::c_find_if(r, Cmp(k));
  vf_assert(vf_log_size() == 5 && vf_logged(4, kFind, k), "c_find_if is not std::find_if with the predicate");
  vf_assert(f == g_storage + 2, "c_find_if does not return what std::find_if found");
  rst::c_push_heap(r, Cmp(k));
  vf_assert(vf_log_size() == 6 && vf_logged(5, kPush, k), "c_push_heap is not std::push_heap");
  rst::c_pop_heap(r, Cmp(k));
  vf_assert(vf_log_size() == 7 && vf_logged(6, kPop, k), "c_pop_heap is not std::pop_heap");
  (void)rst::c_is_sorted(r, Cmp(k));
  vf_assert(vf_log_size() == 8 && vf_logged(7, kSorted, k), "c_is_sorted is not std::is_sorted");
  rst::c_shuffle(r, Gen());
  vf_assert(vf_log_size() == 9 && vf_logged(8, kShuffle, 0), "c_shuffle is not std::shuffle");
  vf_reach("end");
}

void Y04_helpers() {
  vf_no_abort("a helper aborted");
  std::function<int(int)> f = rst::NullFunction();
  vf_assert(f == nullptr, "NullFunction is not null");
  std::function<void(int)> g = rst::DoNothing();
  vf_assert(g != nullptr, "DoNothing is null");
  g(1);
  auto p = new Probe(3);
  auto u = rst::WrapUnique(p);
  vf_assert(u.get() == p && vf_live() == 1, "WrapUnique does not own the given pointer");
  vf_reach("end");
}
