#include "rst/rtti/rtti.h"

#include <memory>
#include <string>

#include "rst/files/file_utils.h"
#include "rst/not_null/not_null.h"
#include "rst/status/status.h"
#include "vf.h"

namespace {

class A : public rst::ErrorInfo<A> {
 public:
  const std::string& AsString() const override { return text_; }
  static char id_;
  std::string text_;
};

class B : public rst::ErrorInfo<B, A> {
 public:
  static char id_;
  int b_ = 0;
};

class C : public rst::ErrorInfo<C, B> {
 public:
  static char id_;
};

class D : public rst::ErrorInfo<D, A> {
 public:
  static char id_;
};

class E : public rst::ErrorInfo<E> {
 public:
  const std::string& AsString() const override { return text_; }
  static char id_;
  std::string text_;
};

// Classes whose ErrorInfoBase part does not lie at the start of the object.
class Mixin {
 public:
  virtual ~Mixin() = default;
  int mixin_ = 0;
};

class F : public Mixin, public rst::ErrorInfo<F> {
 public:
  const std::string& AsString() const override { return text_; }
  static char id_;
  std::string text_;
};

class G : public rst::ErrorInfo<G, F> {
 public:
  static char id_;
};

class H : public Mixin, public rst::ErrorInfo<H, A> {
 public:
  static char id_;
};

using Base = rst::ErrorInfoBase;


}  // namespace

char A::id_ = 0;
char B::id_ = 0;
char C::id_ = 0;
char D::id_ = 0;
char E::id_ = 0;
char F::id_ = 0;
char G::id_ = 0;
char H::id_ = 0;

// IsA<X>() and dyn_cast<X>() for an object whose class is known; the object is
// only seen through its base class.
#define VF_IS(X)                                                               \
  vf_assert(o.IsA<X>(), "an error is not of a class it derives from");         \
  vf_assert(rst::dyn_cast<X>(p).get() == x, "dyn_cast to the class or a base is not the object"); \
  vf_assert(rst::dyn_cast<X>(rst::NotNull<const Base*>(p)).get() == x,         \
            "dyn_cast to the class or a base is not the object");              \
  vf_assert(rst::dyn_cast<X>(m).get() == x, "dyn_cast of a non-const pointer is not the object"); \
  vf_assert(rst::dyn_cast<X>(rst::NotNull<Base*>(m)).get() == x, "dyn_cast of a non-const pointer is not the object")
#define VF_ISNT(X)                                                             \
  vf_assert(!o.IsA<X>(), "an error reports a class it does not derive from");  \
  vf_assert(rst::dyn_cast<X>(p).get() == nullptr, "dyn_cast to an unrelated class is not null"); \
  vf_assert(rst::dyn_cast<X>(rst::NotNull<const Base*>(p)).get() == nullptr,   \
            "dyn_cast to an unrelated class is not null");                     \
  vf_assert(rst::dyn_cast<X>(m).get() == nullptr, "dyn_cast of a non-const pointer to an unrelated class is not null"); \
  vf_assert(rst::dyn_cast<X>(rst::NotNull<Base*>(m)).get() == nullptr, "dyn_cast of a non-const pointer to an unrelated class is not null")
#define VF_OBJ(X)          \
  vf_no_abort("class identification aborted"); \
  X obj;                   \
  Base& o = obj;           \
  const Base* p = &o;      \
  Base* m = &o;            \
  const X* x = &obj;       \
  vf_assert(o.GetDynamicClassID() == X::GetClassID(), "the dynamic class id is not the class's")

void S05_A() {
  VF_OBJ(A);
  VF_IS(A);
  vf_assert(o.IsA<Base>(), "an error is not an ErrorInfoBase");
  VF_ISNT(B);
  VF_ISNT(C);
  VF_ISNT(D);
  VF_ISNT(E);
  VF_ISNT(rst::FileError);
}

void S05_B() {
  VF_OBJ(B);
  VF_IS(A);
  VF_IS(B);
  vf_assert(o.IsA<Base>(), "an error is not an ErrorInfoBase");
  VF_ISNT(C);
  VF_ISNT(D);
  VF_ISNT(E);
}

void S05_C() {
  VF_OBJ(C);
  VF_IS(A);
  VF_IS(B);
  VF_IS(C);
  vf_assert(o.IsA<Base>(), "an error is not an ErrorInfoBase");
  VF_ISNT(D);
  VF_ISNT(E);
}

void S05_E() {
  VF_OBJ(E);
  VF_IS(E);
  VF_ISNT(A);
  VF_ISNT(B);
  VF_ISNT(C);
  VF_ISNT(D);
}

void S05_second_base() {
  VF_OBJ(F);
  VF_IS(F);
  VF_ISNT(A);
  VF_ISNT(G);
  VF_ISNT(H);
}

void S05_second_base_derived() {
  VF_OBJ(G);
  VF_IS(F);
  VF_IS(G);
  VF_ISNT(A);
  VF_ISNT(H);
}

void S05_second_base_under() {
  VF_OBJ(H);
  VF_IS(A);
  VF_IS(H);
  VF_ISNT(F);
  VF_ISNT(B);
}

void S05_file_error() {
  vf_no_abort("class identification aborted");
  rst::FileError obj("x");
  Base& o = obj;
  Base* m = &o;
  const Base* p = &o;
  const rst::FileError* x = &obj;
  VF_IS(rst::FileError);
  VF_ISNT(rst::FileOpenError);
  VF_ISNT(A);
}

void S05_file_open_error() {
  vf_no_abort("class identification aborted");
  rst::FileOpenError obj("x");
  Base& o = obj;
  Base* m = &o;
  const Base* p = &o;
  const rst::FileOpenError* x = &obj;
  VF_IS(rst::FileError);
  VF_IS(rst::FileOpenError);
  VF_ISNT(A);
}

void S05_identities() {
  vf_no_abort("class identification aborted");
  vf_assert(A::GetClassID() != B::GetClassID(), "two classes share an identity");
  vf_assert(A::GetClassID() != Base::GetClassID(), "two classes share an identity");
  vf_assert(A::GetClassID() != E::GetClassID(), "two classes share an identity");
  vf_assert(A::GetClassID() == A::GetClassID(), "the identity of a class changes");
  vf_assert(rst::FileError::GetClassID() != rst::FileOpenError::GetClassID(), "two classes share an identity");
}

void S05_null() {
  const Base* p = nullptr;
  (void)rst::dyn_cast<A>(p);
  vf_unreachable("dyn_cast of null did not abort");
}
