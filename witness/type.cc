// Y01: strong typedefs.
#include <functional>
#include <string>
#include <unordered_set>

#include "rst/type/type.h"
using Apple = rst::Type<class AppleTag, int>;
using Orange = rst::Type<class OrangeTag, int>;
using Name = rst::Type<class NameTag, std::string>;
using Title = rst::Type<class TitleTag, std::string>;
using Flag = rst::Type<class FlagTag, bool>;
void TakeApple(Apple);
//# ok mix : values of one type
void f(Apple a, Name n) {
  Apple b = a; b = a; TakeApple(b); TakeApple(Apple(2)); Name m = n; m = n;
  Apple c = Apple(Orange(1).value()); (void)c;
}
//# bad mix : initialization from another tag
void f(Apple a) { Orange o = a; (void)o; }
//# bad mix : explicit construction from another tag
void f(Apple a) { Orange o(a); (void)o; }
//# bad mix : static_cast to another tag
void f(Apple a) { (void)static_cast<Orange>(a); }
//# bad mix : assignment from another tag
void f(Apple a, Orange o) { o = a; }
//# bad mix : passing another tag
void f(Orange o) { TakeApple(o); }
//# bad mix : string-valued types of different tags
void f(Name n) { Title t = n; (void)t; }
//# bad mix : explicit construction of string-valued types of different tags
void f(Name n) { Title t(n); (void)t; }
//# ok compare : values of one type compare
bool f(Apple a, Apple b) { return a == b && a != b && a < b && a > b && a <= b && a >= b && a.value() == 3; }
//# bad compare : == across tags
bool f(Apple a, Orange o) { return a == o; }
//# bad compare : != across tags
bool f(Apple a, Orange o) { return a != o; }
//# bad compare : < across tags
bool f(Apple a, Orange o) { return a < o; }
//# bad compare : > across tags
bool f(Apple a, Orange o) { return a > o; }
//# bad compare : <= across tags
bool f(Apple a, Orange o) { return a <= o; }
//# bad compare : >= across tags
bool f(Apple a, Orange o) { return a >= o; }
//# bad compare : + across tags
auto f(Apple a, Orange o) { return a + o; }
//# bad compare : + within a tag
auto f(Apple a, Apple o) { return a + o; }
//# bad compare : == with a raw value
bool f(Apple a) { return a == 3; }
//# bad compare : < with a raw value
bool f(Apple a) { return a < 3; }
//# ok from : explicit conversion from a raw value
void f() { Apple a(1); Apple b = Apple(2); Name n(std::string("x")); TakeApple(Apple(1)); (void)a; (void)b; (void)n; }
//# bad from : implicit initialization from an rvalue
void f() { Apple a = 1; (void)a; }
//# bad from : implicit initialization from an lvalue
void f(const int& i) { Apple a = i; (void)a; }
//# bad from : assignment from a raw value
void f(Apple& a) { a = 1; }
//# bad from : passing a raw value
void f() { TakeApple(1); }
//# bad from : returning a raw value
Apple f() { return 1; }
//# bad from : implicit initialization from a string
void f(std::string s) { Name n = s; (void)n; }
//# bad from : implicit initialization from a string rvalue
void f(std::string s) { Name n = static_cast<std::string&&>(s); (void)n; }
//# ok to : explicit conversion to a raw value
void f(Apple a, Name n) { int i(a); int j = static_cast<int>(a); std::string s = n.value(); (void)i; (void)j; (void)s; Flag b(true); if (b) {} }
//# bad to : implicit conversion to the raw type
void f(Apple a) { int i = a; (void)i; }
//# bad to : implicit conversion when returning
int f(Apple a) { return a; }
//# bad to : implicit conversion of an argument
void g(int); void f(Apple a) { g(a); }
//# bad to : implicit conversion to another number type
void f(Apple a) { long i = a; (void)i; }
//# bad to : implicit conversion to bool
bool f(Flag a) { return a; }
//# bad to : implicit conversion to a string
void f(Name n) { std::string s = n; (void)s; }
//# bad to : switch on a strong type
void f(Apple a) { switch (a + 0) { default: break; } }
