// S03: misuse of Status and StatusOr.
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/logger/file_name_sink.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"

struct E : rst::ErrorInfo<E> {
  const std::string& AsString() const override;
  static char id_;
};
struct Obj {
  Obj(Obj&&) noexcept;
  Obj& operator=(Obj&&) noexcept;
  rst::Status Method();
  rst::StatusOr<int> Other() const;
};
struct Triv { int a; };
rst::Status Fs();
rst::StatusOr<int> Fi();
rst::StatusOr<std::string> Fstr();
rst::StatusOr<std::unique_ptr<int>> Fp();
rst::StatusOr<Triv> Ft();
//# ok discard : a status is looked at or ignored explicitly
void f(Obj& o) {
  if (Fs().err()) {}
  Fs().Ignore();
  auto s = Fi();
  if (s.err()) {}
  (void)Fs();
  o.Method().Ignore();
  rst::WriteFile("x", "y").Ignore();
}
//# bad discard : a returned Status is dropped
void f() { Fs(); }
//# bad discard : a returned StatusOr<int> is dropped
void f() { Fi(); }
//# bad discard : a returned StatusOr<std::string> is dropped
void f() { Fstr(); }
//# bad discard : a returned StatusOr of a move-only type is dropped
void f() { Fp(); }
//# bad discard : a returned StatusOr of a trivial class is dropped
void f() { Ft(); }
//# bad discard : the Status returned by a member function is dropped
void f(Obj& o) { o.Method(); }
//# bad discard : the StatusOr returned by a member function is dropped
void f(Obj& o) { o.Other(); }
//# bad discard : a Status returned by a lambda is dropped
void f() { []() { return Fs(); }(); }
//# bad discard : the result of MakeStatus is dropped
void f() { rst::MakeStatus<E>(); }
//# bad discard : the result of Status::OK is dropped
void f() { rst::Status::OK(); }
//# bad discard : the Status of WriteFile is dropped
void f() { rst::WriteFile("x", "y"); }
//# bad discard : the Status of WriteImportantFile is dropped
void f() { rst::WriteImportantFile("x", "y"); }
//# bad discard : the StatusOr of ReadFile is dropped
void f() { rst::ReadFile("x"); }
//# bad discard : the StatusOr of FileNameSink::Create is dropped
void f() { rst::FileNameSink::Create("x"); }
//# bad discard : the Status of TakeStatus is dropped
void f() { auto s = Fi(); if (s.err()) std::move(s).TakeStatus(); }
//# bad discard : in a for increment
void f() { for (;; Fs()) {} }
//# bad discard : in a comma expression
int f() { return Fs(), 1; }
//# ok err : the result of err() is used
bool f(rst::Status& s, rst::StatusOr<int>& t) { (void)t.err(); return s.err(); }
//# bad err : the result of Status::err is dropped
void f(rst::Status& s) { s.err(); }
//# bad err : the result of StatusOr::err is dropped
void f(rst::StatusOr<int>& s) { s.err(); }
//# bad err : the result of StatusOr<std::string>::err is dropped
void f(rst::StatusOr<std::string>& s) { s.err(); }
//# bad err : the result of err() on a temporary is dropped
void f() { Fs().err(); }
//# ok copy : moving
void f(rst::Status& a, rst::Status& b, rst::StatusOr<int>& c, rst::StatusOr<int>& d, rst::StatusOr<std::string>& e) {
  rst::Status x = std::move(a);
  b = std::move(x);
  rst::StatusOr<int> y = std::move(c);
  d = std::move(y);
  rst::StatusOr<std::string> z = std::move(e);
  e = std::move(z);
}
//# bad copy : copy construction of a Status
void f(rst::Status& a) { rst::Status x = a; x.Ignore(); }
//# bad copy : copy construction of a const Status
void f(const rst::Status& a) { rst::Status x(a); x.Ignore(); }
//# bad copy : copy construction from a moved const Status
void f(const rst::Status& a) { rst::Status x(std::move(a)); x.Ignore(); }
//# bad copy : copy assignment of a Status
void f(rst::Status& a, rst::Status& b) { a = b; }
//# bad copy : copy assignment of a const Status
void f(rst::Status& a, const rst::Status& b) { a = b; }
//# bad copy : copy construction of a StatusOr<int>
void f(rst::StatusOr<int>& a) { rst::StatusOr<int> x = a; x.Ignore(); }
//# bad copy : copy construction of a const StatusOr<int>
void f(const rst::StatusOr<int>& a) { rst::StatusOr<int> x(a); x.Ignore(); }
//# bad copy : copy assignment of a StatusOr<int>
void f(rst::StatusOr<int>& a, rst::StatusOr<int>& b) { a = b; }
//# bad copy : copy assignment of a const StatusOr<int>
void f(rst::StatusOr<int>& a, const rst::StatusOr<int>& b) { a = b; }
//# bad copy : copy construction of a StatusOr<std::string>
void f(rst::StatusOr<std::string>& a) { rst::StatusOr<std::string> x(a); x.Ignore(); }
//# bad copy : copy assignment of a StatusOr<std::string>
void f(rst::StatusOr<std::string>& a, const rst::StatusOr<std::string>& b) { a = b; }
//# bad copy : copy construction of a StatusOr<std::unique_ptr>
void f(rst::StatusOr<std::unique_ptr<int>>& a) { rst::StatusOr<std::unique_ptr<int>> x(a); x.Ignore(); }
//# bad copy : a StatusOr is built from a Status lvalue without a move
void f(rst::Status& s) { rst::StatusOr<int> x = s; x.Ignore(); }
//# ok default : a StatusOr built from a value or an error
void f() { rst::StatusOr<int> x = 1; x.Ignore(); rst::StatusOr<int> y = rst::MakeStatus<E>(); y.Ignore(); }
//# bad default : default construction of a StatusOr<int>
void f() { rst::StatusOr<int> x; x.Ignore(); }
//# bad default : value initialization of a StatusOr<std::string>
void f() { rst::StatusOr<std::string> x{}; x.Ignore(); }
//# bad default : new StatusOr without a value
auto f() { return new rst::StatusOr<int>(); }
//# bad default : an array of StatusOr without values
void f() { rst::StatusOr<int> x[2]; }
//# bad default : default construction of a StatusOr of a trivial class
void f() { rst::StatusOr<Triv> x; x.Ignore(); }
//# bad default : public default construction of a Status
void f() { rst::Status x; x.Ignore(); }
//# ok bool : testing err()
void f(rst::Status& s, rst::StatusOr<int>& t) { if (s.err()) {} if (!t.err()) { int x = *t; (void)x; } bool b = t.err(); (void)b; }
//# bad bool : a Status as a condition
void f(rst::Status& s) { if (s) {} }
//# bad bool : a negated Status
bool f(rst::Status& s) { return !s; }
//# bad bool : a Status converted to bool explicitly
bool f(rst::Status& s) { return static_cast<bool>(s); }
//# bad bool : a Status compared with nullptr
bool f(rst::Status& s) { return s == nullptr; }
//# bad bool : a StatusOr<int> as a condition
void f(rst::StatusOr<int>& s) { if (s) {} }
//# bad bool : a StatusOr<int> converted to bool
bool f(rst::StatusOr<int>& s) { return s; }
//# bad bool : a StatusOr<int> converted to bool explicitly
bool f(rst::StatusOr<int>& s) { return static_cast<bool>(s); }
//# bad bool : a StatusOr<std::string> as a condition
void f(rst::StatusOr<std::string>& s) { while (s) {} }
//# bad bool : a StatusOr<bool> as a condition
void f(rst::StatusOr<bool>& s) { if (s) {} }
//# ok value : the value is read with *
int f(rst::StatusOr<int>& s) { return *s; }
std::string g(rst::StatusOr<std::string>& s) { return std::move(*s); }
//# bad value : a StatusOr<int> converts to int
int f(rst::StatusOr<int>& s) { return s; }
//# bad value : a StatusOr<int> rvalue converts to int
int f() { return Fi(); }
//# bad value : a StatusOr<int> converts to int explicitly
int f(rst::StatusOr<int>& s) { return static_cast<int>(s); }
//# bad value : a StatusOr<int> binds to int&
int& f(rst::StatusOr<int>& s) { return s; }
//# bad value : a StatusOr<std::string> converts to std::string
std::string f(rst::StatusOr<std::string>& s) { return s; }
//# bad value : a StatusOr<std::string> rvalue converts to std::string
std::string f() { return Fstr(); }
//# bad value : a StatusOr<std::string> binds to const std::string&
void f(rst::StatusOr<std::string>& s) { const std::string& x = s; (void)x; }
//# bad value : a StatusOr<std::unique_ptr> converts to the pointer
std::unique_ptr<int> f() { return Fp(); }
//# bad value : a StatusOr converts to Status
void f(rst::StatusOr<int>& s) { rst::Status x = std::move(s); x.Ignore(); }
