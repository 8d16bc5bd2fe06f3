// Y02, Y03 and the objects whose address others keep.
#include <string>
#include <utility>

#include "rst/defer/defer.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/memory/weak_ptr.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/threading/barrier.h"
#include "rst/timer/one_shot_timer.h"
using ND = rst::NoDestructor<std::string>;
//# ok nd : construction in place
void f() { static ND a("x"); static const ND b(std::string("y")); (void)a->size(); (void)(*b).size(); }
//# bad nd : copy construction
void f(const ND& a) { ND b(a); }
//# bad nd : copy construction with =
void f(const ND& a) { ND b = a; }
//# bad nd : move construction
void f(ND& a) { ND b = std::move(a); }
//# bad nd : copy assignment
void f(ND& a, const ND& b) { a = b; }
//# bad nd : move assignment
void f(ND& a, ND& b) { a = std::move(b); }
//# bad nd : copy construction of NoDestructor<int>
void f(const rst::NoDestructor<int>& a) { rst::NoDestructor<int> b = a; }
//# bad nd : assignment of NoDestructor<int>
void f(rst::NoDestructor<int>& a, rst::NoDestructor<int>& b) { a = b; }
//# ok defer : deferring
void f(int& x) { RST_DEFER([&x]() { x++; }); auto d = rst::internal::Defer([] {}); (void)d; }
//# must defer : an action that can only be moved
struct Once { Once() = default; Once(Once&&) = default; Once& operator=(Once&&) = default; void operator()() const {} };
void f() { 
  RST_DEFER(Once());
  Once o;
  RST_DEFER(std::move(o));
}
//# must defer : an action that can be neither copied nor moved
struct Fixed { Fixed() = default; Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; void operator()() const {} };
void f() {
  Fixed o;
  RST_DEFER(o);
  const Fixed c;
  RST_DEFER(c);
}
//# bad defer : copy construction
void f() { auto d = rst::internal::Defer([] {}); auto e = d; (void)e; }
//# bad defer : copy construction from const
void f() { const auto d = rst::internal::Defer([] {}); auto e = d; (void)e; }
//# bad defer : copy assignment
void f() { auto l = [] {}; auto d = rst::internal::Defer(l); auto e = rst::internal::Defer(l); d = e; }
//# bad defer : move assignment
void f() { auto l = [] {}; auto d = rst::internal::Defer(l); auto e = rst::internal::Defer(l); d = std::move(e); }
//# bad defer : a deferred variable is re-armed by move assignment
void f() { auto d = rst::internal::Defer([] {}); d = rst::internal::Defer([] {}); }
//# hold storage : the wrapper is as big and as aligned as the object
struct alignas(64) Big { char c[200]; };
struct Small { char c; };
struct Odd3 { char c[3]; };
struct alignas(16) A16 { int i; };
#define CHECK(T) static_assert(sizeof(rst::NoDestructor<T>) >= sizeof(T) && alignof(rst::NoDestructor<T>) % alignof(T) == 0)
CHECK(Big); CHECK(Small); CHECK(Odd3); CHECK(A16); CHECK(double); CHECK(int); CHECK(long double); CHECK(std::string);
#undef CHECK
//# ok storage : sizes
static_assert(sizeof(rst::NoDestructor<int>) > 0);
