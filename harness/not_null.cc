#include "rst/not_null/not_null.h"

#include <memory>
#include <utility>

#include "rst/memory/memory.h"
#include "vf.h"

namespace {

struct Base {
  virtual ~Base() = default;
  int x = 1;
};
struct Derived : Base {
  int y = 2;
};

template <class T>
T* Any() {
  return static_cast<T*>(vf_ptr());
}

}  // namespace

#ifndef NDEBUG
// ===========================================================================
// N01: a null pointer never gets into a NotNull.
void N01_raw_ctor() {
  int* p = Any<int>();
  rst::NotNull<int*> n = p;
  vf_assert(p != nullptr, "constructing a NotNull from null did not abort");
  vf_assert(n.get() == p, "get() is not the pointer given");
  vf_assert(&*n == p, "* is not the pointer given");
  vf_assert(n.operator->() == p, "-> is not the pointer given");
}

void N01_raw_ctor_ok() {
  int* p = Any<int>();
  vf_assume(p != nullptr);
  vf_no_abort("a non-null pointer was rejected");
  rst::NotNull<int*> n = p;
  rst::NotNull<const int*> c = n;
  rst::NotNull<int*> m = n;
  vf_assert(m.get() == p, "copy changed the pointer");
  vf_assert(n.get() == p, "copy changed its source");
  vf_assert(c.get() == p, "conversion changed the pointer");
  vf_assert(&n[0] == p, "[] does not index from the pointer");
  vf_reach("end");
}

void N01_raw_assign() {
  int a = 0;
  int* p = Any<int>();
  rst::NotNull<int*> n = &a;
  n = p;
  vf_assert(p != nullptr, "assigning null to a NotNull did not abort");
  vf_assert(n.get() == p, "assignment lost the pointer");
}

void N01_derived_ctor() {
  Derived* p = Any<Derived>();
  rst::NotNull<Base*> n = p;
  vf_assert(p != nullptr, "constructing a NotNull from a null derived pointer did not abort");
  vf_assert(n.get() == p, "derived-to-base conversion changed the pointer");
}

void N01_derived_convert() {
  Derived* p = Any<Derived>();
  vf_assume(p != nullptr);
  vf_no_abort("a non-null pointer was rejected");
  rst::NotNull<Derived*> d = p;
  rst::NotNull<Base*> n = d;
  Base b;
  rst::NotNull<Base*> m = &b;
  m = d;
  rst::NotNull<Base*> o = &b;
  o = std::move(d);
  vf_assert(n.get() == p, "derived-to-base construction changed the pointer");
  vf_assert(m.get() == p, "derived-to-base assignment changed the pointer");
  vf_assert(o.get() == p, "derived-to-base move assignment changed the pointer");
  vf_reach("end");
}

void N01_copy_assign() {
  int* p = Any<int>();
  int a = 0;
  vf_assume(p != nullptr);
  vf_no_abort("a non-null pointer was rejected");
  rst::NotNull<int*> n = p;
  rst::NotNull<int*> m = &a;
  m = n;
  vf_assert(m.get() == p, "copy assignment lost the pointer");
  rst::NotNull<int*> k = &a;
  k = std::move(n);
  vf_assert(k.get() == p, "move assignment lost the pointer");
  vf_reach("end");
}

void N01_from_nullable() {
  int* p = Any<int>();
  rst::Nullable<int*> u = p;
  if (u == nullptr)
    vf_assume(vf_bool());
  rst::NotNull<int*> n = u;
  vf_assert(p != nullptr, "converting a null Nullable did not abort");
  vf_assert(n.get() == p, "conversion from Nullable lost the pointer");
}

void N01_from_nullable_move() {
  int* p = Any<int>();
  rst::Nullable<int*> u = p;
  (void)(u == nullptr);
  rst::NotNull<int*> n = std::move(u);
  vf_assert(p != nullptr, "converting a null Nullable did not abort");
  vf_assert(n.get() == p, "conversion from Nullable lost the pointer");
}

void N01_assign_nullable() {
  int a = 0;
  int* p = Any<int>();
  rst::Nullable<int*> u = p;
  (void)(u == nullptr);
  rst::NotNull<int*> n = &a;
  n = u;
  vf_assert(p != nullptr, "assigning a null Nullable did not abort");
  vf_assert(n.get() == p, "assignment from Nullable lost the pointer");
}

void N01_assign_nullable_move() {
  int a = 0;
  int* p = Any<int>();
  rst::Nullable<int*> u = p;
  (void)(u == nullptr);
  rst::NotNull<int*> n = &a;
  n = std::move(u);
  vf_assert(p != nullptr, "assigning a null Nullable did not abort");
  vf_assert(n.get() == p, "assignment from Nullable lost the pointer");
}

void N01_wrap_unique() {
  Derived* p = vf_bool() ? new Derived : nullptr;
  rst::NotNull<std::unique_ptr<Derived>> n = rst::WrapUnique(p);
  vf_assert(p != nullptr, "WrapUnique of null did not abort");
  vf_assert(n.get() == p, "WrapUnique changed the pointer");
}

// --- unique_ptr --------------------------------------------------------------
void N01_unique_ctor() {
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::unique_ptr<Derived>> n = std::move(u);
  vf_assert(p != nullptr, "constructing a NotNull from a null unique_ptr did not abort");
  vf_assert(n.get() == p, "get() is not the pointer given");
  vf_assert(u == nullptr, "the source still owns the object");
}

void N01_unique_base_ctor() {
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::unique_ptr<Base>> n = std::move(u);
  vf_assert(p != nullptr, "constructing a NotNull from a null unique_ptr did not abort");
  vf_assert(n.get() == p, "get() is not the pointer given");
}

void N01_unique_assign() {
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  n = std::move(u);
  vf_assert(p != nullptr, "assigning a null unique_ptr did not abort");
  vf_assert(n.get() == p, "assignment lost the pointer");
}

void N01_unique_moved_from_get() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  (void)n.get();
  vf_unreachable("get() of a NotNull emptied by a move did not abort");
}

void N01_unique_moved_from_arrow() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  (void)n->x;
  vf_unreachable("-> of a NotNull emptied by a move did not abort");
}

void N01_unique_moved_from_deref() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  (void)&*n;
  vf_unreachable("* of a NotNull emptied by a move did not abort");
}

void N01_unique_moved_from_take() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  std::unique_ptr<Derived> u = std::move(n).Take();
  vf_unreachable("Take() of a NotNull emptied by a move did not abort");
}

void N01_unique_moved_from_move() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  rst::NotNull<std::unique_ptr<Derived>> k = std::move(n);
  vf_unreachable("moving from an emptied NotNull did not abort");
}

void N01_unique_moved_from_assign() {
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  rst::NotNull<std::unique_ptr<Derived>> k = std::make_unique<Derived>();
  k = std::move(n);
  vf_unreachable("assigning from an emptied NotNull did not abort");
}

void N01_unique_ok() {
  vf_no_abort("a non-null unique_ptr was rejected");
  std::unique_ptr<Derived> u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::unique_ptr<Derived>> n = std::move(u);
  vf_assert(n.get() == p && n.operator->() == p && &*n == p, "access yields another pointer");
  rst::NotNull<std::unique_ptr<Derived>> m = std::move(n);
  vf_assert(m.get() == p, "move construction lost the pointer");
  rst::NotNull<std::unique_ptr<Base>> b = std::move(m);
  vf_assert(b.get() == p, "converting move construction lost the pointer");
  rst::NotNull<std::unique_ptr<Base>> c = std::make_unique<Base>();
  c = std::move(b);
  vf_assert(c.get() == p, "move assignment lost the pointer");
  std::unique_ptr<Base> t = std::move(c).Take();
  vf_assert(t.get() == p, "Take() is not the pointer given");
  vf_reach("end");
}

void N01_unique_from_nullable() {
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::Nullable<std::unique_ptr<Derived>> l = std::move(u);
  (void)(l == nullptr);
  rst::NotNull<std::unique_ptr<Derived>> n = std::move(l);
  vf_assert(p != nullptr, "converting a null Nullable unique_ptr did not abort");
  vf_assert(n.get() == p, "conversion from Nullable lost the pointer");
}

void N01_unique_assign_nullable() {
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::Nullable<std::unique_ptr<Derived>> l = std::move(u);
  (void)(l == nullptr);
  rst::NotNull<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  n = std::move(l);
  vf_assert(p != nullptr, "assigning a null Nullable unique_ptr did not abort");
  vf_assert(n.get() == p, "assignment from Nullable lost the pointer");
}

// --- shared_ptr --------------------------------------------------------------
void N01_shared_ctor() {
  std::shared_ptr<Derived> u;
  if (vf_bool())
    u = std::make_shared<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::shared_ptr<Derived>> n = u;
  vf_assert(p != nullptr, "constructing a NotNull from a null shared_ptr did not abort");
  vf_assert(n.get() == p, "get() is not the pointer given");
}

void N01_shared_move_ctor() {
  std::shared_ptr<Derived> u;
  if (vf_bool())
    u = std::make_shared<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::shared_ptr<Base>> n = std::move(u);
  vf_assert(p != nullptr, "constructing a NotNull from a null shared_ptr did not abort");
  vf_assert(n.get() == p, "get() is not the pointer given");
}

void N01_shared_assign() {
  std::shared_ptr<Derived> u;
  if (vf_bool())
    u = std::make_shared<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
  n = u;
  vf_assert(p != nullptr, "assigning a null shared_ptr did not abort");
  vf_assert(n.get() == p, "assignment lost the pointer");
}

void N01_shared_ok() {
  vf_no_abort("a non-null shared_ptr was rejected");
  std::shared_ptr<Derived> u = std::make_shared<Derived>();
  Derived* p = u.get();
  rst::NotNull<std::shared_ptr<Derived>> n = u;
  rst::NotNull<std::shared_ptr<Derived>> c = n;
  vf_assert(n.get() == p && c.get() == p, "copy construction lost the pointer");
  rst::NotNull<std::shared_ptr<Derived>> a = std::make_shared<Derived>();
  a = c;
  vf_assert(a.get() == p && c.get() == p, "copy assignment lost the pointer");
  rst::NotNull<std::shared_ptr<Derived>> m = std::move(a);
  vf_assert(m.get() == p, "move construction lost the pointer");
  rst::NotNull<std::shared_ptr<Base>> b = m;
  vf_assert(b.get() == p, "converting construction lost the pointer");
  std::shared_ptr<Derived> t = std::move(m).Take();
  vf_assert(t.get() == p, "Take() is not the pointer given");
  vf_reach("end");
}

void N01_shared_moved_from_get() {
  rst::NotNull<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
  rst::NotNull<std::shared_ptr<Derived>> m = std::move(n);
  (void)n.get();
  vf_unreachable("get() of a NotNull emptied by a move did not abort");
}

void N01_shared_moved_from_take() {
  rst::NotNull<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
  rst::NotNull<std::shared_ptr<Derived>> m = std::move(n);
  std::shared_ptr<Derived> u = std::move(n).Take();
  vf_unreachable("Take() of a NotNull emptied by a move did not abort");
}

void N01_shared_moved_from_copy() {
  rst::NotNull<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
  rst::NotNull<std::shared_ptr<Derived>> m = std::move(n);
  rst::NotNull<std::shared_ptr<Derived>> k = n;
  vf_unreachable("copying an emptied NotNull did not abort");
}

void N01_shared_moved_from_copy_assign() {
  rst::NotNull<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
  rst::NotNull<std::shared_ptr<Derived>> m = std::move(n);
  rst::NotNull<std::shared_ptr<Derived>> k = std::make_shared<Derived>();
  k = n;
  vf_unreachable("assigning an emptied NotNull did not abort");
}

void N01_shared_from_nullable() {
  std::shared_ptr<Derived> u;
  if (vf_bool())
    u = std::make_shared<Derived>();
  Derived* p = u.get();
  rst::Nullable<std::shared_ptr<Derived>> l = u;
  (void)(l == nullptr);
  rst::NotNull<std::shared_ptr<Derived>> n = l;
  vf_assert(p != nullptr, "converting a null Nullable shared_ptr did not abort");
  vf_assert(n.get() == p, "conversion from Nullable lost the pointer");
}

void N01_comparisons() {
  vf_no_abort("comparing NotNulls aborted");
  int* p = Any<int>();
  int* q = Any<int>();
  vf_assume(p != nullptr);
  vf_assume(q != nullptr);
  rst::NotNull<int*> n = p;
  rst::NotNull<int*> m = q;
  rst::Nullable<int*> u = q;
  vf_assert((n == m) == (p == q), "NotNull == NotNull does not compare the pointers");
  vf_assert((n != m) == (p != q), "NotNull != NotNull does not compare the pointers");
  vf_assert((n < m) == (p < q), "NotNull < NotNull does not compare the pointers");
  vf_assert((n == q) == (p == q), "NotNull == pointer does not compare the pointers");
  vf_assert((n != q) == (p != q), "NotNull != pointer does not compare the pointers");
  vf_assert((q == n) == (p == q), "pointer == NotNull does not compare the pointers");
  vf_assert((q != n) == (p != q), "pointer != NotNull does not compare the pointers");
  vf_assert((n == u) == (p == q), "NotNull == Nullable does not compare the pointers");
  vf_assert((n != u) == (p != q), "NotNull != Nullable does not compare the pointers");
  vf_assert((u == n) == (p == q), "Nullable == NotNull does not compare the pointers");
  vf_assert((u != n) == (p != q), "Nullable != NotNull does not compare the pointers");
}

// ===========================================================================
// N02
#define VF_UNCHECKED(name, make, use)                                     \
  void N02_##name() {                                                     \
    Derived d;                                                            \
    make;                                                                 \
    (void)use;                                                            \
    vf_unreachable("access to an uncompared Nullable did not abort");     \
  }

VF_UNCHECKED(raw_arrow, rst::Nullable<Derived*> n = &d, n->x)
VF_UNCHECKED(raw_deref, rst::Nullable<Derived*> n = &d, &*n)
VF_UNCHECKED(raw_index, rst::Nullable<Derived*> n = &d, &n[0])
VF_UNCHECKED(raw_convert, rst::Nullable<Derived*> n = &d, rst::NotNull<Derived*>(n))
VF_UNCHECKED(raw_convert_move, rst::Nullable<Derived*> n = &d, rst::NotNull<Derived*>(std::move(n)))
VF_UNCHECKED(raw_base_arrow, rst::Nullable<Base*> n = &d, n->x)
VF_UNCHECKED(raw_from_notnull, rst::Nullable<Derived*> n = rst::NotNull<Derived*>(&d), n->x)
VF_UNCHECKED(unique_arrow, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(), n->x)
VF_UNCHECKED(unique_deref, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(), &*n)
VF_UNCHECKED(unique_convert, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(),
             rst::NotNull<std::unique_ptr<Derived>>(std::move(n)))
VF_UNCHECKED(shared_arrow, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(), n->x)
VF_UNCHECKED(shared_deref, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(), &*n)
VF_UNCHECKED(shared_convert, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(),
             rst::NotNull<std::shared_ptr<Derived>>(n))
VF_UNCHECKED(shared_convert_move, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(),
             rst::NotNull<std::shared_ptr<Derived>>(std::move(n)))

void N02_raw_assign_to_notnull() {
  Derived d, e;
  rst::Nullable<Derived*> n = &d;
  rst::NotNull<Derived*> m = &e;
  m = n;
  vf_unreachable("assigning an uncompared Nullable to a NotNull did not abort");
}

void N02_raw_move_assign_to_notnull() {
  Derived d, e;
  rst::Nullable<Derived*> n = &d;
  rst::NotNull<Derived*> m = &e;
  m = std::move(n);
  vf_unreachable("assigning an uncompared Nullable to a NotNull did not abort");
}

void N02_unique_assign_to_notnull() {
  rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
  rst::NotNull<std::unique_ptr<Derived>> m = std::make_unique<Derived>();
  m = std::move(n);
  vf_unreachable("assigning an uncompared Nullable to a NotNull did not abort");
}

#define VF_NULL(name, make, use)                                          \
  void N02_##name() {                                                     \
    make;                                                                 \
    (void)(n == nullptr);                                                 \
    (void)use;                                                            \
    vf_unreachable("dereferencing a null Nullable did not abort");        \
  }

VF_NULL(null_raw_arrow, rst::Nullable<Derived*> n, n->x)
VF_NULL(null_raw_arrow2, rst::Nullable<Derived*> n = nullptr, n->x)
VF_NULL(null_raw_deref, rst::Nullable<Derived*> n, &*n)
VF_NULL(null_raw_index, rst::Nullable<Derived*> n, &n[0])
VF_NULL(null_unique_arrow, rst::Nullable<std::unique_ptr<Derived>> n, n->x)
VF_NULL(null_unique_deref, rst::Nullable<std::unique_ptr<Derived>> n = nullptr, &*n)
VF_NULL(null_shared_arrow, rst::Nullable<std::shared_ptr<Derived>> n, n->x)
VF_NULL(null_shared_deref, rst::Nullable<std::shared_ptr<Derived>> n = nullptr, &*n)
VF_NULL(null_raw_convert, rst::Nullable<Derived*> n, rst::NotNull<Derived*>(n))

// Assigning a new value revokes the comparison.
#define VF_REVOKE(name, make, assign)                                     \
  void N02_##name() {                                                     \
    Derived d, e;                                                         \
    (void)&e;                                                             \
    make;                                                                 \
    (void)(n != nullptr);                                                 \
    (void)n->x;                                                           \
    assign;                                                               \
    (void)n->x;                                                           \
    vf_unreachable("a comparison survived the assignment of a new value"); \
  }

VF_REVOKE(revoke_raw, rst::Nullable<Derived*> n = &d, n = &e)
VF_REVOKE(revoke_raw_copy, rst::Nullable<Derived*> n = &d; rst::Nullable<Derived*> m = &e, n = m)
VF_REVOKE(revoke_raw_move, rst::Nullable<Derived*> n = &d; rst::Nullable<Derived*> m = &e, n = std::move(m))
VF_REVOKE(revoke_raw_notnull, rst::Nullable<Derived*> n = &d; rst::NotNull<Derived*> m = &e, n = m)
VF_REVOKE(revoke_raw_notnull_move, rst::Nullable<Derived*> n = &d; rst::NotNull<Derived*> m = &e, n = std::move(m))
VF_REVOKE(revoke_raw_conv, rst::Nullable<Base*> n = &d; rst::Nullable<Derived*> m = &e, n = m)
VF_REVOKE(revoke_raw_conv_move, rst::Nullable<Base*> n = &d; rst::Nullable<Derived*> m = &e, n = std::move(m))
VF_REVOKE(revoke_raw_compared, rst::Nullable<Derived*> n = &d; rst::Nullable<Derived*> m = &e; (void)(m != nullptr), n = m)
VF_REVOKE(revoke_unique, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(),
          n = std::make_unique<Derived>())
VF_REVOKE(revoke_unique_move, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>();
          rst::Nullable<std::unique_ptr<Derived>> m = std::make_unique<Derived>(), n = std::move(m))
VF_REVOKE(revoke_shared, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(),
          n = std::make_shared<Derived>())
VF_REVOKE(revoke_shared_copy, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
          rst::Nullable<std::shared_ptr<Derived>> m = std::make_shared<Derived>(), n = m)

// ... whatever was compared before: the target, the source, both or none.
#define VF_REVOKE_ANY(name, target, value, source, assign)                \
  void N02_##name() {                                                     \
    Derived d, e;                                                         \
    (void)&e;                                                             \
    target n = value;                                                     \
    source;                                                               \
    if (vf_bool())                                                        \
      (void)(n != nullptr);                                               \
    if (vf_bool())                                                        \
      (void)(m != nullptr);                                               \
    assign;                                                               \
    (void)&*n;                                                            \
    vf_unreachable("a comparison survived the assignment of a new value"); \
  }
#define VF_COMMA ,
VF_REVOKE_ANY(revany_copy, rst::Nullable<Derived*>, &d, rst::Nullable<Derived*> m = &e, n = m)
VF_REVOKE_ANY(revany_move, rst::Nullable<Derived*>, &d, rst::Nullable<Derived*> m = &e, n = std::move(m))
VF_REVOKE_ANY(revany_conv_copy, rst::Nullable<Base*>, &d, rst::Nullable<Derived*> m = &e, n = m)
VF_REVOKE_ANY(revany_conv_move, rst::Nullable<Base*>, &d, rst::Nullable<Derived*> m = &e, n = std::move(m))
VF_REVOKE_ANY(revany_to_const, rst::Nullable<const Derived*>, &d, rst::Nullable<Derived*> m = &e, n = m)
VF_REVOKE_ANY(revany_unique, rst::Nullable<std::unique_ptr<Derived>>, std::make_unique<Derived>(),
              rst::Nullable<std::unique_ptr<Derived>> m = std::make_unique<Derived>(), n = std::move(m))
VF_REVOKE_ANY(revany_unique_conv, rst::Nullable<std::unique_ptr<Base>>, std::make_unique<Derived>(),
              rst::Nullable<std::unique_ptr<Derived>> m = std::make_unique<Derived>(), n = std::move(m))
VF_REVOKE_ANY(revany_shared, rst::Nullable<std::shared_ptr<Derived>>, std::make_shared<Derived>(),
              rst::Nullable<std::shared_ptr<Derived>> m = std::make_shared<Derived>(), n = m)
VF_REVOKE_ANY(revany_shared_move, rst::Nullable<std::shared_ptr<Derived>>, std::make_shared<Derived>(),
              rst::Nullable<std::shared_ptr<Derived>> m = std::make_shared<Derived>(), n = std::move(m))
VF_REVOKE_ANY(revany_shared_conv, rst::Nullable<std::shared_ptr<Base>>, std::make_shared<Derived>(),
              rst::Nullable<std::shared_ptr<Derived>> m = std::make_shared<Derived>(), n = m)
VF_REVOKE_ANY(revany_null, rst::Nullable<Derived*>, &d, rst::Nullable<Derived*> m = &e, n = nullptr)
VF_REVOKE_ANY(revany_raw, rst::Nullable<Derived*>, &d, rst::Nullable<Derived*> m = &e, n = m.get())

// Looking at a Nullable in any other way is no comparison with nullptr.
#define VF_NOMARK(name, make, look)                                       \
  void N02_##name() {                                                     \
    Derived d;                                                            \
    make;                                                                 \
    look;                                                                 \
    (void)&*n;                                                            \
    vf_unreachable("a Nullable that was not compared with nullptr could be dereferenced"); \
  }
VF_NOMARK(nomark_get, rst::Nullable<Derived*> n = &d, (void)n.get())
VF_NOMARK(nomark_copy, rst::Nullable<Derived*> n = &d, rst::Nullable<Derived*> m = n; (void)(m == nullptr))
VF_NOMARK(nomark_assign, rst::Nullable<Derived*> n = &d; rst::Nullable<Derived*> m, m = n; (void)(m == nullptr))
VF_NOMARK(nomark_eq, rst::Nullable<Derived*> n = &d; rst::NotNull<Derived*> m = &d, (void)(n == m); (void)(m == n))
VF_NOMARK(nomark_ne, rst::Nullable<Derived*> n = &d; rst::NotNull<Derived*> m = &d, (void)(n != m); (void)(m != n))
VF_NOMARK(nomark_eq_nullable, rst::Nullable<Derived*> n = &d; rst::Nullable<Derived*> m = &d,
          (void)(n == m); (void)(m == n); (void)(n != m); (void)(m != n))
VF_NOMARK(nomark_unique_get, rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(), (void)n.get())
VF_NOMARK(nomark_shared_get, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(), (void)n.get())
VF_NOMARK(nomark_shared_copy, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(),
          rst::Nullable<std::shared_ptr<Derived>> m = n; (void)(m == nullptr))
VF_NOMARK(nomark_shared_assign, rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>();
          rst::Nullable<std::shared_ptr<Derived>> m, m = n; (void)(m == nullptr))

// A compared, non-null Nullable never aborts and yields its pointer.
void N02_raw_ok() {
  Derived* p = Any<Derived>();
  vf_no_abort("a compared Nullable aborted");
  rst::Nullable<Derived*> n = p;
  vf_assert((n == nullptr) == (p == nullptr), "comparison with nullptr is wrong");
  vf_assert((n != nullptr) == (p != nullptr), "comparison with nullptr is wrong");
  vf_assert((nullptr == n) == (p == nullptr), "comparison with nullptr is wrong");
  vf_assert((nullptr != n) == (p != nullptr), "comparison with nullptr is wrong");
  if (n != nullptr) {
    vf_assert(n.operator->() == p, "-> yields another pointer");
    vf_assert(&*n == p, "* yields another pointer");
    vf_assert(&n[0] == p, "[] yields another pointer");
    vf_assert(n.get() == p, "get() yields another pointer");
    rst::NotNull<Derived*> m = n;
    vf_assert(m.get() == p, "conversion to NotNull lost the pointer");
    rst::NotNull<Base*> b = n;
    vf_assert(b.get() == p, "conversion to NotNull lost the pointer");
    vf_reach("non-null");
  }
}

void N02_compare_forms() {
  Derived d;
  vf_no_abort("one form of comparison with nullptr does not count as one");
  { rst::Nullable<Derived*> n = &d; (void)(n == nullptr); (void)n->x; }
  { rst::Nullable<Derived*> n = &d; (void)(n != nullptr); (void)n->x; }
  { rst::Nullable<Derived*> n = &d; (void)(nullptr == n); (void)n->x; }
  { rst::Nullable<Derived*> n = &d; (void)(nullptr != n); (void)n->x; }
  { const rst::Nullable<std::unique_ptr<Derived>> n = std::make_unique<Derived>(); (void)(nullptr != n); (void)n->x; }
  { const rst::Nullable<std::shared_ptr<Derived>> n = std::make_shared<Derived>(); (void)(n == nullptr); (void)n->x; }
  vf_reach("end");
}

void N02_values() {
  Derived* p = Any<Derived>();
  vf_no_abort("copying, moving or assigning Nullables aborted");
  rst::Nullable<Derived*> n = p;
  rst::Nullable<Derived*> c = n;
  vf_assert(c.get() == p, "copy construction lost the pointer");
  rst::Nullable<Derived*> m = std::move(c);
  vf_assert(m.get() == p, "move construction lost the pointer");
  rst::Nullable<Base*> b = n;
  vf_assert(b.get() == p, "converting construction lost the pointer");
  rst::Nullable<Derived*> a;
  vf_assert(a.get() == nullptr, "a default constructed Nullable is not null");
  a = n;
  vf_assert(a.get() == p, "copy assignment lost the pointer");
  a = nullptr;
  vf_assert(a.get() == nullptr, "assigning nullptr does not make it null");
  a = std::move(m);
  vf_assert(a.get() == p, "move assignment lost the pointer");
  rst::Nullable<Base*> e;
  e = n;
  vf_assert(e.get() == p, "converting assignment lost the pointer");
  e = nullptr;
  e = p;
  vf_assert(e.get() == p, "assignment of a raw pointer lost it");
  vf_assert(n.get() == p, "the source changed");
  vf_reach("end");
}

void N02_values_owner() {
  vf_no_abort("copying, moving or assigning Nullables aborted");
  std::unique_ptr<Derived> u;
  if (vf_bool())
    u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::Nullable<std::unique_ptr<Derived>> n = std::move(u);
  vf_assert(n.get() == p, "construction lost the pointer");
  rst::Nullable<std::unique_ptr<Base>> b = std::move(n);
  vf_assert(b.get() == p, "converting move construction lost the pointer");
  rst::Nullable<std::unique_ptr<Base>> c;
  c = std::move(b);
  vf_assert(c.get() == p, "move assignment lost the pointer");
  vf_assert(b.get() == nullptr, "the source still owns the object");
  std::unique_ptr<Base> t = std::move(c).Take();
  vf_assert(t.get() == p, "Take() is not the pointer");
  c = nullptr;
  vf_assert(c.get() == nullptr, "assigning nullptr does not make it null");
  std::shared_ptr<Derived> s;
  if (vf_bool())
    s = std::make_shared<Derived>();
  Derived* q = s.get();
  rst::Nullable<std::shared_ptr<Derived>> h = s;
  rst::Nullable<std::shared_ptr<Derived>> i = h;
  vf_assert(h.get() == q && i.get() == q, "copying a shared_ptr lost the pointer");
  rst::Nullable<std::shared_ptr<Base>> j;
  j = h;
  vf_assert(j.get() == q && h.get() == q, "converting assignment lost the pointer");
  std::shared_ptr<Derived> v = std::move(i).Take();
  vf_assert(v.get() == q, "Take() is not the pointer");
  vf_reach("end");
}

void N02_from_notnull() {
  vf_no_abort("making a Nullable from a NotNull aborted");
  Derived d;
  rst::NotNull<Derived*> m = &d;
  rst::Nullable<Derived*> n = m;
  rst::Nullable<Base*> b = m;
  rst::Nullable<Derived*> a;
  a = m;
  vf_assert(n.get() == &d && b.get() == &d && a.get() == &d, "the pointer was lost");
  rst::NotNull<std::unique_ptr<Derived>> u = std::make_unique<Derived>();
  Derived* p = u.get();
  rst::Nullable<std::unique_ptr<Base>> o = std::move(u);
  vf_assert(o.get() == p, "the pointer was lost");
  vf_reach("end");
}

void N02_compare_values() {
  vf_no_abort("comparing Nullables aborted");
  int* p = Any<int>();
  int* q = Any<int>();
  rst::Nullable<int*> n = p;
  rst::Nullable<int*> m = q;
  vf_assert((n == m) == (p == q), "Nullable == Nullable does not compare the pointers");
  vf_assert((n != m) == (p != q), "Nullable != Nullable does not compare the pointers");
  vf_assert((n < m) == (p < q), "Nullable < Nullable does not compare the pointers");
  vf_assert((n == q) == (p == q), "Nullable == pointer does not compare the pointers");
  vf_assert((n != q) == (p != q), "Nullable != pointer does not compare the pointers");
  vf_assert((q == n) == (p == q), "pointer == Nullable does not compare the pointers");
  vf_assert((q != n) == (p != q), "pointer != Nullable does not compare the pointers");
}
#else
void N01_release() {
  Derived* p = Any<Derived>();
  rst::NotNull<Derived*> n = p;
  rst::NotNull<Derived*> m = n;
  rst::NotNull<Base*> b = m;
  m = n;
  vf_assert(n.get() == p && m.get() == p && b.get() == p, "the pointer was lost");
  rst::NotNull<std::unique_ptr<Derived>> u = std::make_unique<Derived>();
  Derived* q = u.get();
  rst::NotNull<std::unique_ptr<Base>> v = std::move(u);
  vf_assert(v.get() == q, "the pointer was lost");
  std::unique_ptr<Base> t = std::move(v).Take();
  vf_assert(t.get() == q, "the pointer was lost");
}

void N02_release() {
  Derived* p = Any<Derived>();
  rst::Nullable<Derived*> n = p;
  rst::Nullable<Derived*> m = n;
  rst::Nullable<Base*> b = m;
  rst::Nullable<Base*> c;
  c = n;
  vf_assert((n == nullptr) == (p == nullptr), "comparison with nullptr is wrong");
  vf_assert(n.get() == p && m.get() == p && b.get() == p && c.get() == p, "the pointer was lost");
  vf_assert(&*n == p && n.operator->() == p, "the pointer was lost");
}
#endif
