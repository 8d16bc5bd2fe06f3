// D01, D02: the assertion macros.
#include "rst/check/check.h"
#include "rst/macros/macros.h"

#include "vf.h"

namespace {
int g_evaluated;

bool Condition(const bool value) {
  g_evaluated++;
  return value;
}

#if RST_BUILDFLAG(DCHECK_IS_ON)
constexpr bool kDebug = true;
#else
constexpr bool kDebug = false;
#endif
}  // namespace

void D02_true() {
  vf_no_abort("a check of a true condition aborts");
  g_evaluated = 0;
  RST_CHECK(Condition(true));
  vf_assert(g_evaluated == 1, "a check evaluates its condition once");
  vf_reach("a check of a true condition continues");
}

void D02_false() {
  g_evaluated = 0;
  RST_CHECK(Condition(false));
  vf_unreachable("a check of a false condition continues");
}

// A condition that changes when it is evaluated: the first value counts.
void D02_changing() {
  int n = 0;
  RST_CHECK(n++ != 0);
  vf_unreachable("a check of a false condition continues");
}

void D02_consuming() {
  vf_no_abort("a check of a true condition aborts");
  int n = 1;
  RST_CHECK(n-- != 0);
  vf_assert(n == 0, "a check evaluates its condition once");
  vf_reach("passed");
}

void D02_any() {
  g_evaluated = 0;
  const bool a = vf_bool(), b = vf_bool();
  if (a && b) vf_no_abort("a check of a true condition aborts");
  RST_CHECK(a && Condition(b));
  vf_assert(a && b, "a check lets only true conditions pass");
  vf_assert(g_evaluated == 1, "a check evaluates its condition once");
  vf_reach("passed");
}

void D02_pointer() {
  // not only conditions of type bool
  int* const p = vf_bool() ? &g_evaluated : nullptr;
  RST_CHECK(p);
  vf_assert(p != nullptr, "a check lets only true conditions pass");
  vf_reach("passed");
}

void D01_true() {
  vf_no_abort("a debug check of a true condition aborts");
  g_evaluated = 0;
  RST_DCHECK(Condition(true));
  vf_assert(g_evaluated == (kDebug ? 1 : 0), "a debug check evaluates its condition once, in debug builds only");
  vf_reach("continues");
}

void D01_false() {
  g_evaluated = 0;
  if (!kDebug) vf_no_abort("a release build aborts at a debug check");
  RST_DCHECK(Condition(false));
#if RST_BUILDFLAG(DCHECK_IS_ON)
  vf_unreachable("a debug build continues after a failed debug check");
#else
  vf_assert(g_evaluated == 0, "a release build evaluates the condition of a debug check");
#endif
}

void D01_any() {
  g_evaluated = 0;
  const bool a = vf_bool();
  if (a || !kDebug) vf_no_abort("a debug check that holds aborts");
  RST_DCHECK(Condition(a));
  vf_assert(a || !kDebug, "a debug build continues after a failed debug check");
  vf_reach("passed");
}

void D01_not_reached() {
  if (!kDebug) vf_no_abort("a release build aborts at RST_NOTREACHED");
  RST_NOTREACHED();
  if (kDebug) vf_unreachable("a debug build continues after RST_NOTREACHED");
}
