// Y03: a deferred action that can only be moved.
#include <memory>
#include <utility>

#include "rst/defer/defer.h"
#include "vf.h"

void Y03_owned() {
  // what the action captured is alive when it runs
  auto p = std::make_unique<int>(vf_int());
  int seen = 0;
  const int want = *p;
  {
    RST_DEFER(([q = std::move(p), &seen] { seen = *q; }));
  }
  vf_assert(seen == want, "the action ran without what it captured");
  vf_reach("end");
}
