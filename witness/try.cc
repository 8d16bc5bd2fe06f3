// S04: the macros of rst/status/status_macros.h in functions of any caller.
#include <memory>
#include <string>
#include <utility>

#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"

struct E : rst::ErrorInfo<E> {
  const std::string& AsString() const override;
  static char id_;
};
rst::Status Run(const int*);
rst::StatusOr<std::unique_ptr<int>> Make(const int*);
//# ok names : variables of the caller in the statements
rst::Status f(const int my_number) {
  RST_TRY(Run(&my_number));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&my_number));
  return rst::Status::OK();
}
//# must names : a variable of the caller called status in the statements
rst::Status f(const int status) {
  RST_TRY(Run(&status));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&status));
  RST_TRY_CREATE(auto, q, Make(&status));
  RST_TRY_ASSIGN(q, Make(&status));
  return rst::Status::OK();
}
//# must names : a variable of the caller called status assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> status;
  RST_TRY_ASSIGN_UNWRAP(status, Make(number));
  {
    RST_TRY_CREATE(auto, status, Make(number));
    RST_TRY_ASSIGN(status, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called status_or in the statements
rst::Status f(const int status_or) {
  RST_TRY(Run(&status_or));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&status_or));
  RST_TRY_CREATE(auto, q, Make(&status_or));
  RST_TRY_ASSIGN(q, Make(&status_or));
  return rst::Status::OK();
}
//# must names : a variable of the caller called status_or assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> status_or;
  RST_TRY_ASSIGN_UNWRAP(status_or, Make(number));
  {
    RST_TRY_CREATE(auto, status_or, Make(number));
    RST_TRY_ASSIGN(status_or, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called statusor in the statements
rst::Status f(const int statusor) {
  RST_TRY(Run(&statusor));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&statusor));
  RST_TRY_CREATE(auto, q, Make(&statusor));
  RST_TRY_ASSIGN(q, Make(&statusor));
  return rst::Status::OK();
}
//# must names : a variable of the caller called statusor assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> statusor;
  RST_TRY_ASSIGN_UNWRAP(statusor, Make(number));
  {
    RST_TRY_CREATE(auto, statusor, Make(number));
    RST_TRY_ASSIGN(statusor, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called s in the statements
rst::Status f(const int s) {
  RST_TRY(Run(&s));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&s));
  RST_TRY_CREATE(auto, q, Make(&s));
  RST_TRY_ASSIGN(q, Make(&s));
  return rst::Status::OK();
}
//# must names : a variable of the caller called s assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> s;
  RST_TRY_ASSIGN_UNWRAP(s, Make(number));
  {
    RST_TRY_CREATE(auto, s, Make(number));
    RST_TRY_ASSIGN(s, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called st in the statements
rst::Status f(const int st) {
  RST_TRY(Run(&st));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&st));
  RST_TRY_CREATE(auto, q, Make(&st));
  RST_TRY_ASSIGN(q, Make(&st));
  return rst::Status::OK();
}
//# must names : a variable of the caller called st assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> st;
  RST_TRY_ASSIGN_UNWRAP(st, Make(number));
  {
    RST_TRY_CREATE(auto, st, Make(number));
    RST_TRY_ASSIGN(st, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called so in the statements
rst::Status f(const int so) {
  RST_TRY(Run(&so));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&so));
  RST_TRY_CREATE(auto, q, Make(&so));
  RST_TRY_ASSIGN(q, Make(&so));
  return rst::Status::OK();
}
//# must names : a variable of the caller called so assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> so;
  RST_TRY_ASSIGN_UNWRAP(so, Make(number));
  {
    RST_TRY_CREATE(auto, so, Make(number));
    RST_TRY_ASSIGN(so, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called result in the statements
rst::Status f(const int result) {
  RST_TRY(Run(&result));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&result));
  RST_TRY_CREATE(auto, q, Make(&result));
  RST_TRY_ASSIGN(q, Make(&result));
  return rst::Status::OK();
}
//# must names : a variable of the caller called result assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> result;
  RST_TRY_ASSIGN_UNWRAP(result, Make(number));
  {
    RST_TRY_CREATE(auto, result, Make(number));
    RST_TRY_ASSIGN(result, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called res in the statements
rst::Status f(const int res) {
  RST_TRY(Run(&res));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&res));
  RST_TRY_CREATE(auto, q, Make(&res));
  RST_TRY_ASSIGN(q, Make(&res));
  return rst::Status::OK();
}
//# must names : a variable of the caller called res assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> res;
  RST_TRY_ASSIGN_UNWRAP(res, Make(number));
  {
    RST_TRY_CREATE(auto, res, Make(number));
    RST_TRY_ASSIGN(res, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called r in the statements
rst::Status f(const int r) {
  RST_TRY(Run(&r));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&r));
  RST_TRY_CREATE(auto, q, Make(&r));
  RST_TRY_ASSIGN(q, Make(&r));
  return rst::Status::OK();
}
//# must names : a variable of the caller called r assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> r;
  RST_TRY_ASSIGN_UNWRAP(r, Make(number));
  {
    RST_TRY_CREATE(auto, r, Make(number));
    RST_TRY_ASSIGN(r, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called ret in the statements
rst::Status f(const int ret) {
  RST_TRY(Run(&ret));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&ret));
  RST_TRY_CREATE(auto, q, Make(&ret));
  RST_TRY_ASSIGN(q, Make(&ret));
  return rst::Status::OK();
}
//# must names : a variable of the caller called ret assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> ret;
  RST_TRY_ASSIGN_UNWRAP(ret, Make(number));
  {
    RST_TRY_CREATE(auto, ret, Make(number));
    RST_TRY_ASSIGN(ret, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called rv in the statements
rst::Status f(const int rv) {
  RST_TRY(Run(&rv));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&rv));
  RST_TRY_CREATE(auto, q, Make(&rv));
  RST_TRY_ASSIGN(q, Make(&rv));
  return rst::Status::OK();
}
//# must names : a variable of the caller called rv assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> rv;
  RST_TRY_ASSIGN_UNWRAP(rv, Make(number));
  {
    RST_TRY_CREATE(auto, rv, Make(number));
    RST_TRY_ASSIGN(rv, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called err in the statements
rst::Status f(const int err) {
  RST_TRY(Run(&err));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&err));
  RST_TRY_CREATE(auto, q, Make(&err));
  RST_TRY_ASSIGN(q, Make(&err));
  return rst::Status::OK();
}
//# must names : a variable of the caller called err assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> err;
  RST_TRY_ASSIGN_UNWRAP(err, Make(number));
  {
    RST_TRY_CREATE(auto, err, Make(number));
    RST_TRY_ASSIGN(err, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called error in the statements
rst::Status f(const int error) {
  RST_TRY(Run(&error));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&error));
  RST_TRY_CREATE(auto, q, Make(&error));
  RST_TRY_ASSIGN(q, Make(&error));
  return rst::Status::OK();
}
//# must names : a variable of the caller called error assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> error;
  RST_TRY_ASSIGN_UNWRAP(error, Make(number));
  {
    RST_TRY_CREATE(auto, error, Make(number));
    RST_TRY_ASSIGN(error, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called value in the statements
rst::Status f(const int value) {
  RST_TRY(Run(&value));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&value));
  RST_TRY_CREATE(auto, q, Make(&value));
  RST_TRY_ASSIGN(q, Make(&value));
  return rst::Status::OK();
}
//# must names : a variable of the caller called value assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> value;
  RST_TRY_ASSIGN_UNWRAP(value, Make(number));
  {
    RST_TRY_CREATE(auto, value, Make(number));
    RST_TRY_ASSIGN(value, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called val in the statements
rst::Status f(const int val) {
  RST_TRY(Run(&val));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&val));
  RST_TRY_CREATE(auto, q, Make(&val));
  RST_TRY_ASSIGN(q, Make(&val));
  return rst::Status::OK();
}
//# must names : a variable of the caller called val assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> val;
  RST_TRY_ASSIGN_UNWRAP(val, Make(number));
  {
    RST_TRY_CREATE(auto, val, Make(number));
    RST_TRY_ASSIGN(val, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called v in the statements
rst::Status f(const int v) {
  RST_TRY(Run(&v));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&v));
  RST_TRY_CREATE(auto, q, Make(&v));
  RST_TRY_ASSIGN(q, Make(&v));
  return rst::Status::OK();
}
//# must names : a variable of the caller called v assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> v;
  RST_TRY_ASSIGN_UNWRAP(v, Make(number));
  {
    RST_TRY_CREATE(auto, v, Make(number));
    RST_TRY_ASSIGN(v, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called tmp in the statements
rst::Status f(const int tmp) {
  RST_TRY(Run(&tmp));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&tmp));
  RST_TRY_CREATE(auto, q, Make(&tmp));
  RST_TRY_ASSIGN(q, Make(&tmp));
  return rst::Status::OK();
}
//# must names : a variable of the caller called tmp assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> tmp;
  RST_TRY_ASSIGN_UNWRAP(tmp, Make(number));
  {
    RST_TRY_CREATE(auto, tmp, Make(number));
    RST_TRY_ASSIGN(tmp, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called temp in the statements
rst::Status f(const int temp) {
  RST_TRY(Run(&temp));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&temp));
  RST_TRY_CREATE(auto, q, Make(&temp));
  RST_TRY_ASSIGN(q, Make(&temp));
  return rst::Status::OK();
}
//# must names : a variable of the caller called temp assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> temp;
  RST_TRY_ASSIGN_UNWRAP(temp, Make(number));
  {
    RST_TRY_CREATE(auto, temp, Make(number));
    RST_TRY_ASSIGN(temp, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called t in the statements
rst::Status f(const int t) {
  RST_TRY(Run(&t));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&t));
  RST_TRY_CREATE(auto, q, Make(&t));
  RST_TRY_ASSIGN(q, Make(&t));
  return rst::Status::OK();
}
//# must names : a variable of the caller called t assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> t;
  RST_TRY_ASSIGN_UNWRAP(t, Make(number));
  {
    RST_TRY_CREATE(auto, t, Make(number));
    RST_TRY_ASSIGN(t, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called x in the statements
rst::Status f(const int x) {
  RST_TRY(Run(&x));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&x));
  RST_TRY_CREATE(auto, q, Make(&x));
  RST_TRY_ASSIGN(q, Make(&x));
  return rst::Status::OK();
}
//# must names : a variable of the caller called x assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> x;
  RST_TRY_ASSIGN_UNWRAP(x, Make(number));
  {
    RST_TRY_CREATE(auto, x, Make(number));
    RST_TRY_ASSIGN(x, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called e in the statements
rst::Status f(const int e) {
  RST_TRY(Run(&e));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&e));
  RST_TRY_CREATE(auto, q, Make(&e));
  RST_TRY_ASSIGN(q, Make(&e));
  return rst::Status::OK();
}
//# must names : a variable of the caller called e assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> e;
  RST_TRY_ASSIGN_UNWRAP(e, Make(number));
  {
    RST_TRY_CREATE(auto, e, Make(number));
    RST_TRY_ASSIGN(e, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called ok in the statements
rst::Status f(const int ok) {
  RST_TRY(Run(&ok));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&ok));
  RST_TRY_CREATE(auto, q, Make(&ok));
  RST_TRY_ASSIGN(q, Make(&ok));
  return rst::Status::OK();
}
//# must names : a variable of the caller called ok assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> ok;
  RST_TRY_ASSIGN_UNWRAP(ok, Make(number));
  {
    RST_TRY_CREATE(auto, ok, Make(number));
    RST_TRY_ASSIGN(ok, Make(number));
  }
  return rst::Status::OK();
}
//# must names : a variable of the caller called st_or in the statements
rst::Status f(const int st_or) {
  RST_TRY(Run(&st_or));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(&st_or));
  RST_TRY_CREATE(auto, q, Make(&st_or));
  RST_TRY_ASSIGN(q, Make(&st_or));
  return rst::Status::OK();
}
//# must names : a variable of the caller called st_or assigned to
rst::Status f(const int* number) {
  std::unique_ptr<int> st_or;
  RST_TRY_ASSIGN_UNWRAP(st_or, Make(number));
  {
    RST_TRY_CREATE(auto, st_or, Make(number));
    RST_TRY_ASSIGN(st_or, Make(number));
  }
  return rst::Status::OK();
}
//# ok nested : inside one another
rst::Status f(const int* number) {
  RST_TRY(Run(number));
  return [number] { RST_TRY(Run(number)); return rst::Status::OK(); }();
}
//# must nested : in a function within the statement
rst::Status f(const int* number) {
  RST_TRY([number] { RST_TRY(Run(number)); return rst::Status::OK(); }());
  return rst::Status::OK();
}
//# must nested : two on one line
rst::Status f(const int* number) {
  RST_TRY(Run(number)); RST_TRY(Run(number));
  std::unique_ptr<int> p; RST_TRY_ASSIGN_UNWRAP(p, Make(number)); RST_TRY_ASSIGN_UNWRAP(p, Make(number));
  return rst::Status::OK();
}
//# must nested : branches without braces
rst::Status f(const int* number, const bool a) {
  std::unique_ptr<int> p;
  if (a)
    RST_TRY(Run(number));
  else
    RST_TRY_ASSIGN_UNWRAP(p, Make(number));
  for (int i = 0; i < 2; i++)
    RST_TRY(Run(&i));
  return rst::Status::OK();
}
//# must nested : from functions that return a StatusOr
rst::StatusOr<int> f(const int* number) {
  RST_TRY(Run(number));
  std::unique_ptr<int> p;
  RST_TRY_ASSIGN_UNWRAP(p, Make(number));
  RST_TRY_CREATE(rst::StatusOr<std::unique_ptr<int>>, q, Make(number));
  RST_TRY_ASSIGN(q, Make(number));
  return 1;
}
