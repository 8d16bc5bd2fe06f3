// N01: nullptr never gets into a NotNull.
#include <memory>
#include <string>
#include <utility>

#include "rst/not_null/not_null.h"
#include "rst/memory/memory.h"
using rst::NotNull;
using rst::Nullable;
struct B { virtual ~B(); };
struct D : B {};
//# ok null : building from a pointer
void f(int* p, std::unique_ptr<int> u, std::shared_ptr<int> s) {
  NotNull<int*> a = p;
  a = p;
  NotNull<std::unique_ptr<int>> b = std::move(u);
  NotNull<std::shared_ptr<int>> c = s;
  Nullable<int*> d = nullptr;
  Nullable<std::unique_ptr<int>> e = nullptr;
  d = nullptr;
  (void)d; (void)e;
}
//# bad null : NotNull<T*> built from nullptr
void f() { NotNull<int*> a = nullptr; }
//# bad null : NotNull<T*> built from nullptr explicitly
void f() { NotNull<int*> a(nullptr); }
//# bad null : NotNull<const char*> built from nullptr
void f() { NotNull<const char*> a(nullptr); }
//# bad null : NotNull<T*> assigned nullptr
void f(NotNull<int*>& a) { a = nullptr; }
//# bad null : nullptr passed for a NotNull<T*>
void g(NotNull<const int*>);
void f() { g(nullptr); }
//# bad null : NotNull<std::unique_ptr> built from nullptr
void f() { NotNull<std::unique_ptr<int>> a = nullptr; }
//# bad null : NotNull<std::unique_ptr> built from nullptr explicitly
void f() { NotNull<std::unique_ptr<int>> a(nullptr); }
//# bad null : NotNull<std::unique_ptr> assigned nullptr
void f(NotNull<std::unique_ptr<int>>& a) { a = nullptr; }
//# bad null : NotNull<std::shared_ptr> built from nullptr
void f() { NotNull<std::shared_ptr<int>> a = nullptr; }
//# bad null : NotNull<std::shared_ptr> built from nullptr explicitly
void f() { NotNull<std::shared_ptr<int>> a(nullptr); }
//# bad null : NotNull<std::shared_ptr> assigned nullptr
void f(NotNull<std::shared_ptr<int>>& a) { a = nullptr; }
//# ok default : a NotNull with a pointer
void f(int* p) { NotNull<int*> a(p); Nullable<int*> b; (void)b; }
//# bad default : a default constructed NotNull<T*>
void f() { NotNull<int*> a; }
//# bad default : a value initialized NotNull<T*>
void f() { NotNull<int*> a{}; }
//# bad default : a default constructed NotNull<std::unique_ptr>
void f() { NotNull<std::unique_ptr<int>> a; }
//# bad default : a default constructed NotNull<std::shared_ptr>
void f() { NotNull<std::shared_ptr<int>> a; }
