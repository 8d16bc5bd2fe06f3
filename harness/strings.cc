// X01: StrCat and Format; X02: rendering of single arguments.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>

#include "rst/not_null/not_null.h"
#include "rst/strings/arg.h"
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
#include "vf.h"

namespace {

using std::string_view;

// What Format has to return; false if the format string is malformed or does
// not match the number of arguments.
bool Reference(const char* f, const string_view* args, int count,
               std::string* out) {
  int used = 0;
  for (int i = 0; f[i] != '\0'; i++) {
    if (f[i] == '{') {
      i++;
      if (f[i] == '{') {
        out->push_back('{');
      } else if (f[i] == '}') {
        if (used == count)
          return false;
        out->append(args[used++]);
      } else {
        return false;
      }
    } else if (f[i] == '}') {
      i++;
      if (f[i] != '}')
        return false;
      out->push_back('}');
    } else {
      out->push_back(f[i]);
    }
  }
  return used == count;
}

template <size_t N>
void Arbitrary(char (&f)[N]) {
  for (size_t i = 0; i + 1 < N; i++) {
    f[i] = vf_char();
    vf_assume(f[i] != '\0');
  }
  f[N - 1] = '\0';
}

#if defined(NDEBUG)
// A malformed format string is outside the contract of a release build.
#define WELL_FORMED(ok) vf_assume(ok)
#else
#define WELL_FORMED(ok) (void)0
#endif

template <size_t N>
void Formats0() {
  char f[N];
  Arbitrary(f);
  std::string expected;
  const bool ok = Reference(f, nullptr, 0, &expected);
  WELL_FORMED(ok);
  if (ok)
    vf_no_abort("a well-formed format string aborts");
  const std::string r = rst::Format(f);
  if (!ok)
    vf_unreachable("a malformed format string or wrong number of arguments is not detected");
  vf_assert(r == expected, "Format returns exactly the characters and arguments it is given");
  vf_reach("Format");
}

template <size_t N>
void Formats1() {
  char f[N];
  Arbitrary(f);
  const string_view a[] = {vf_view()};
  std::string expected;
  const bool ok = Reference(f, a, 1, &expected);
  WELL_FORMED(ok);
  if (ok)
    vf_no_abort("a well-formed format string aborts");
  const std::string r = rst::Format(f, {a[0]});
  if (!ok)
    vf_unreachable("a malformed format string or wrong number of arguments is not detected");
  vf_assert(r == expected, "Format returns exactly the characters and arguments it is given");
  vf_reach("Format");
}

template <size_t N>
void Formats2() {
  char f[N];
  Arbitrary(f);
  const string_view a[] = {vf_view(), vf_view()};
  std::string expected;
  const bool ok = Reference(f, a, 2, &expected);
  WELL_FORMED(ok);
  if (ok)
    vf_no_abort("a well-formed format string aborts");
  const std::string r = rst::Format(f, {a[0], a[1]});
  if (!ok)
    vf_unreachable("a malformed format string or wrong number of arguments is not detected");
  vf_assert(r == expected, "Format returns exactly the characters and arguments it is given");
  vf_reach("Format");
}

}  // namespace

void X01_format_0() { Formats0<4>(); }
void X01_format_0_empty() { Formats0<1>(); }
void X01_format_0_short() { Formats0<2>(); }
void X01_format_1() { Formats1<5>(); }
void X01_format_1_short() { Formats1<3>(); }
void X01_format_2() { Formats2<6>(); }
#if !defined(NDEBUG)
void X01_format_1_tiny() { Formats1<2>(); }
void X01_format_2_short() { Formats2<4>(); }
#endif
#if defined(VF_THOROUGH)
void X01_format_0_long() { Formats0<6>(); }
void X01_format_1_long() { Formats1<7>(); }
void X01_format_2_long() { Formats2<8>(); }
#endif

void X01_format_literal() {
  const string_view a = vf_view(), b = vf_view(), c = vf_view();
  vf_no_abort("a well-formed format string aborts");
  const std::string r = rst::Format("{}-{{{}}}: {}", {a, b, c});
  std::string e(a);
  e.append("-{").append(b).append("}: ").append(c);
  vf_assert(r == e, "Format returns exactly the characters and arguments it is given");
  vf_reach("Format");
}

void X01_strcat_0() {
  vf_no_abort("StrCat aborts");
  vf_assert(rst::StrCat({}).empty(), "StrCat of nothing is empty");
}

void X01_strcat_1() {
  const string_view a = vf_view();
  vf_no_abort("StrCat aborts");
  const std::string r = rst::StrCat({a});
  vf_assert(r == a, "StrCat returns the arguments in order, back to back");
  vf_reach("StrCat");
}

void X01_strcat_2() {
  const string_view a = vf_view(), b = vf_view();
  vf_no_abort("StrCat aborts");
  const std::string r = rst::StrCat({a, b});
  std::string e(a);
  e.append(b);
  vf_assert(r == e, "StrCat returns the arguments in order, back to back");
  vf_assert(r.size() == a.size() + b.size(), "StrCat's result has the length of its arguments");
  vf_reach("StrCat");
}

void X01_strcat_4() {
  const string_view a = vf_view(), b = vf_view(), c = vf_view();
  const std::string d = vf_string();
  vf_no_abort("StrCat aborts");
  const std::string r = rst::StrCat({a, b, c, d});
  std::string e(a);
  e.append(b).append(c).append(d);
  vf_assert(r == e, "StrCat returns the arguments in order, back to back");
  vf_reach("StrCat");
}

void X01_strcat_mixed() {
  const string_view a = vf_view();
  const int n = vf_int();
  vf_no_abort("StrCat aborts");
  const std::string r = rst::StrCat({a, "x", n, a});
  std::string e(a);
  e.append("x").append(std::to_string(n)).append(a);
  vf_assert(r == e, "StrCat returns the arguments in order, back to back");
  vf_reach("StrCat");
}

namespace {

enum Plain { kA = 1, kB = -7 };
enum class Wide : uint64_t { kX = 1, kMax = ~uint64_t{0} };
enum class Narrow : int16_t { kX = 1 };

template <class T>
void Integer(const T v) {
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(v);
  vf_assert(arg.view() == std::to_string(v), "an integer is rendered in full");
  vf_assert(arg.size() == arg.view().size(), "size() is the length of the text");
  vf_assert(vf_inside(&arg, arg.view().data()), "a rendered text lives inside its argument");
  vf_reach("rendered");
}

}  // namespace

void X02_short() { Integer(static_cast<short>(vf_int())); }
void X02_ushort() { Integer(static_cast<unsigned short>(vf_int())); }
void X02_int() { Integer(vf_int()); }
void X02_uint() { Integer(vf_unsigned()); }
void X02_long() { Integer(vf_long()); }
void X02_ulong() { Integer(vf_size()); }
void X02_longlong() { Integer(static_cast<long long>(vf_long())); }
void X02_ulonglong() { Integer(static_cast<unsigned long long>(vf_size())); }

void X02_schar() {
  const auto v = static_cast<signed char>(vf_int());
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(v);
  vf_assert(arg.view() == std::to_string(int{v}), "an integer is rendered in full");
}

void X02_uchar() {
  const auto v = static_cast<unsigned char>(vf_int());
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(v);
  vf_assert(arg.view() == std::to_string(int{v}), "an integer is rendered in full");
}

void X02_bool() {
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg t(true), f(false);
  vf_assert(t.view() == "true" && f.view() == "false", "bool renders as true or false");
  const bool b = vf_bool();
  const rst::internal::Arg a(b);
  vf_assert(a.view() == (b ? string_view("true") : string_view("false")), "bool renders as true or false");
}

void X02_char() {
  const char c = vf_char();
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(c);
  vf_assert(arg.size() == 1 && arg.view()[0] == c, "a char renders as itself");
  vf_assert(vf_inside(&arg, arg.view().data()), "a rendered text lives inside its argument");
}

void X02_enum() {
  vf_no_abort("rendering an argument aborts");
  const int v = vf_int();
  vf_assume(v >= -7 && v <= 1);
  const rst::internal::Arg a(static_cast<Plain>(v));
  vf_assert(a.view() == std::to_string(v), "an enum renders as its underlying integer");
  const size_t w = vf_size();
  const rst::internal::Arg b(static_cast<Wide>(w));
  vf_assert(b.view() == std::to_string(w), "an enum renders as its underlying integer");
  const auto n = static_cast<int16_t>(vf_int());
  const rst::internal::Arg c(static_cast<Narrow>(n));
  vf_assert(c.view() == std::to_string(n), "an enum renders as its underlying integer");
}

void X02_double() {
  vf_no_abort("rendering an argument aborts");
  const double v = vf_double();
  const rst::internal::Arg arg(v);
  vf_assert(vf_shows_d(arg.view(), v), "a floating-point value is rendered in full");
  vf_assert(arg.size() > 0 && arg.size() == arg.view().size(), "a number has a text");
  vf_assert(vf_inside(&arg, arg.view().data()), "a rendered text lives inside its argument");
  vf_reach("rendered");
}

void X02_float() {
  vf_no_abort("rendering an argument aborts");
  const auto v = static_cast<float>(vf_double());
  const rst::internal::Arg arg(v);
  vf_assert(vf_shows_f(arg.view(), v), "a floating-point value is rendered in full");
  vf_assert(arg.size() > 0, "a number has a text");
  vf_assert(vf_inside(&arg, arg.view().data()), "a rendered text lives inside its argument");
  vf_reach("rendered");
}

void X02_long_double() {
  vf_no_abort("rendering an argument aborts");
  const auto v = static_cast<long double>(vf_double());
  const rst::internal::Arg arg(v);
  vf_assert(vf_shows_l(arg.view(), v), "a floating-point value is rendered in full");
  vf_assert(arg.size() > 0, "a number has a text");
  vf_assert(vf_inside(&arg, arg.view().data()), "a rendered text lives inside its argument");
  vf_reach("rendered");
}

void X02_view() {
  const string_view v = vf_view();
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(v);
  vf_assert(arg.view().data() == v.data() && arg.view().size() == v.size() && arg.size() == v.size(),
            "a string argument is the string itself");
}

void X02_string() {
  const std::string s = vf_string();
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(s);
  vf_assert(arg.view().data() == s.data() && arg.view().size() == s.size(),
            "a string argument is the string itself");
}

void X02_c_string() {
  const std::string s = vf_string();
  vf_no_abort("rendering an argument aborts");
  const rst::internal::Arg arg(s.c_str());
  vf_assert(arg.view().data() == s.c_str() && arg.view().size() == s.size(),
            "a string argument is the string itself");
  const rst::internal::Arg arg2(rst::NotNull<const char*>(s.c_str()));
  vf_assert(arg2.view().data() == s.c_str() && arg2.view().size() == s.size(),
            "a string argument is the string itself");
  const rst::internal::Arg arg3("literal");
  vf_assert(arg3.view() == "literal", "a string argument is the string itself");
}
