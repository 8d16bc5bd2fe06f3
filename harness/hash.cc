// H01: HashCombine.
#include "rst/stl/hash.h"

#include <cstddef>
#include <functional>

#include "vf.h"

// Is |value|, as a function of |of| with everything else fixed, injective?
bool vf_injective(std::size_t value, std::size_t of);
// Are the two values the same expression?
bool vf_same(std::size_t a, std::size_t b);

namespace {
size_t H(const long v) { return std::hash<long>()(v); }
}  // namespace

void H01_empty() {
  vf_no_abort("HashCombine aborts");
  vf_assert(rst::HashCombine({}) == 0, "the combination of nothing is 0");
}

void H01_one() {
  vf_no_abort("HashCombine aborts");
  const long a = vf_long();
  vf_assert(rst::HashCombine({a}) == H(a), "the combination of one element is its hash");
  vf_reach("one");
}

void H01_two() {
  vf_no_abort("HashCombine aborts");
  const long a = vf_long(), b = vf_long();
  const size_t r = rst::HashCombine({a, b});
  vf_assert(vf_injective(r, H(a)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(b)), "different hashes in one position give different results");
  vf_assert(!vf_same(r, rst::HashCombine({b, a})), "the combination depends on the order");
  vf_reach("two");
}

void H01_three() {
  vf_no_abort("HashCombine aborts");
  const long a = vf_long(), b = vf_long(), c = vf_long();
  const size_t r = rst::HashCombine({a, b, c});
  vf_assert(vf_injective(r, H(a)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(b)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(c)), "different hashes in one position give different results");
  vf_assert(!vf_same(r, rst::HashCombine({a, c, b})), "the combination depends on the order");
  vf_assert(!vf_same(r, rst::HashCombine({b, a, c})), "the combination depends on the order");
  vf_assert(!vf_same(r, rst::HashCombine({c, b, a})), "the combination depends on the order");
  vf_reach("three");
}

void H01_six() {
  vf_no_abort("HashCombine aborts");
  const long a = vf_long(), b = vf_long(), c = vf_long(), d = vf_long(),
             e = vf_long(), f = vf_long();
  const size_t r = rst::HashCombine({a, b, c, d, e, f});
  vf_assert(vf_injective(r, H(a)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(b)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(c)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(d)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(e)), "different hashes in one position give different results");
  vf_assert(vf_injective(r, H(f)), "different hashes in one position give different results");
  vf_assert(!vf_same(r, rst::HashCombine({a, b, d, c, e, f})), "the combination depends on the order");
  vf_reach("six");
}
