// D01, D02: the assertion macros are statements and nothing else.
#include "rst/check/check.h"

struct P { explicit operator bool() const; int f() const; };
bool Ok(int);
//# ok stmt : in braces
void f(bool a, bool b) { if (a) { RST_CHECK(b); } else { RST_DCHECK(b); } }
//# must stmt : RST_CHECK is one statement
void f(bool a, bool b) { if (a) RST_CHECK(b); else RST_CHECK(!b); }
//# must stmt : RST_DCHECK is one statement
void f(bool a, bool b) { if (a) RST_DCHECK(b); else RST_DCHECK(!b); }
//# must stmt : RST_NOTREACHED is one statement
void f(bool a, bool b) { if (a) RST_NOTREACHED(); else if (b) RST_NOTREACHED(); else Ok(1); }
//# must stmt : conditions that convert to bool
void f(const P& p, int* q, int n) { RST_CHECK(p); RST_CHECK(q); RST_CHECK(n); RST_DCHECK(p); RST_DCHECK(q); }
//# must stmt : conditions of any precedence
void f(bool a, bool b, int n) {
  RST_CHECK(a || b); RST_DCHECK(a || b); RST_CHECK(a && b || n == 3); RST_DCHECK(a ? b : n < 3);
  RST_CHECK(n & 1); RST_DCHECK(n & 1); RST_CHECK((Ok(1), a)); RST_DCHECK(((void)n, a));
}
//# must stmt : a variable only used in an assertion counts as used
void f(int n) { const bool b = n > 3; RST_DCHECK(b); }
