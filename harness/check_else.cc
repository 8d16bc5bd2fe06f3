// D01, D02: the assertion macros in branches without braces.
#include "rst/check/check.h"
#include "rst/macros/macros.h"

#include "vf.h"

namespace {
int g_evaluated;

bool Condition(const bool value) {
  g_evaluated++;
  return value;
}

void Unbraced(const bool check, const bool value) {
  if (check)
    RST_CHECK(Condition(value));
  else
    g_evaluated += 10;
}

void UnbracedDebug(const bool check, const bool value) {
  if (check)
    RST_DCHECK(Condition(value));
  else
    g_evaluated += 10;
}

#if RST_BUILDFLAG(DCHECK_IS_ON)
constexpr bool kDebug = true;
#else
constexpr bool kDebug = false;
#endif
}  // namespace

void D02_unbraced() {
  g_evaluated = 0;
  const bool check = vf_bool(), value = vf_bool();
  if (!check || value) vf_no_abort("a check that is not reached or holds aborts");
  Unbraced(check, value);
  vf_assert(!check || value, "a check lets only true conditions pass");
  vf_assert(g_evaluated == (check ? 1 : 10), "a check is one statement");
  vf_reach("passed");
}

void D01_unbraced() {
  g_evaluated = 0;
  const bool check = vf_bool();
  vf_no_abort("a debug check that holds aborts");
  UnbracedDebug(check, true);
  vf_assert(g_evaluated == (check ? kDebug ? 1 : 0 : 10), "a debug check is one statement");
  vf_reach("passed");
}
