// X02: what can be formatted.
#include <memory>
#include <string>
#include <string_view>
#include <utility>

#include "rst/not_null/not_null.h"
#include "rst/strings/arg.h"
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
using rst::internal::Arg;
enum En { kA };
enum class Ec : short { kA };
struct S {};
//# ok pointer : supported types
void f(const char* c, char* d, char e[10], rst::NotNull<const char*> n, std::string s, std::string_view v) {
  (void)rst::StrCat({c, d, e, n, s, v, 'a', true, 1, 2u, 3L, 4ul, 5ll, 6ull, (short)7, (unsigned short)8, 1.0f, 1.0, 1.0L, kA, Ec::kA, "x"});
  (void)rst::Format("{}{}", {c, s});
}
//# bad pointer : int*
void f(int* p) { (void)rst::StrCat({p}); }
//# bad pointer : const int*
void f(const int* p) { (void)rst::StrCat({p}); }
//# bad pointer : void*
void f(void* p) { (void)rst::StrCat({p}); }
//# bad pointer : const void*
void f(const void* p) { (void)rst::StrCat({p}); }
//# bad pointer : std::string*
void f(std::string* p) { (void)rst::StrCat({p}); }
//# bad pointer : const std::string*
void f(const std::string* p) { (void)rst::Format("{}", {p}); }
//# bad pointer : a class pointer
void f(S* p) { (void)rst::Format("{}", {p}); }
//# bad pointer : char**
void f(char** p) { (void)rst::StrCat({p}); }
//# bad pointer : unsigned char*
void f(unsigned char* p) { (void)rst::StrCat({p}); }
//# bad pointer : const unsigned char*
void f(const unsigned char* p) { (void)rst::StrCat({p}); }
//# bad pointer : const signed char*
void f(const signed char* p) { (void)rst::StrCat({p}); }
//# bad pointer : bool*
void f(bool* p) { (void)rst::StrCat({p}); }
//# bad pointer : an int array
void f() { int a[3] = {}; (void)rst::StrCat({a}); }
//# bad pointer : a function pointer argument
void f(const volatile int* p) { Arg a(p); }
//# bad pointer : wchar_t string
void f(const wchar_t* p) { (void)rst::StrCat({p}); }
//# bad pointer : nullptr
void f() { Arg a(nullptr); }
//# bad pointer : std::unique_ptr
void f(std::unique_ptr<int>& p) { (void)rst::StrCat({p}); }
//# bad pointer : a class
void f(S s) { (void)rst::StrCat({s}); }
//# ok copy : an argument is built in place
void f(int i) { const Arg a(i); (void)a.view(); }
//# bad copy : copy construction
void f(const Arg& a) { Arg b(a); (void)b; }
//# bad copy : copy construction from an lvalue
void f(Arg& a) { Arg b = a; (void)b; }
//# bad copy : move construction
void f(Arg& a) { Arg b(std::move(a)); (void)b; }
//# bad copy : assignment
void f(Arg& a, const Arg& b) { a = b; }
//# bad copy : move assignment
void f(Arg& a, Arg& b) { a = std::move(b); }
