#include "rst/status/status_or.h"

#include <memory>
#include <utility>

#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "vf.h"

namespace {

class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(int code) : code_(code) { vf_ctor(this); }
  ~Err() override { vf_dtor(this); }
  const std::string& AsString() const override { return text_; }
  static char id_;
  int code_;
  std::string text_;
};

struct Pod {
  int a;
  int b;
};

using vf::Probe;
using PO = rst::StatusOr<Probe>;

PO Make(bool err, int v) {
  if (err)
    return rst::MakeStatus<Err>(v);
  return Probe(v);
}

rst::StatusOr<int> MakeInt(bool err, int v) {
  if (err)
    return rst::MakeStatus<Err>(v);
  return v;
}

rst::Status MakeS(bool err, int v) {
  if (err)
    return rst::MakeStatus<Err>(v);
  return rst::Status::OK();
}

int CodeOf(const rst::Status& s) {
  return static_cast<const Err*>(s.GetError().get())->code_;
}

// The content of o is exactly (err, v); leaves o inspected.
void Expect(PO& o, bool err, int v) {
  vf_assert(o.err() == err, "err() does not tell the live alternative");
  if (o.err())
    vf_assert(CodeOf(o.status()) == v, "the error is not the one stored last");
  else
    vf_assert((*o).get() == v, "the value is not the one stored last");
}

}  // namespace

char Err::id_ = 0;

// ---------------------------------------------------------------------------
// Exactly one live alternative, through construction, move, assignment.
void S02_construct() {
  vf_no_abort("constructing, inspecting and destroying aborted");
  const bool e = vf_bool();
  const int v = vf_int();
  {
    PO o = Make(e, v);
    Expect(o, e, v);
    if (!e)
      vf_assert(o->get() == v, "operator-> is not the value");
    vf_assert(vf_live() == 1, "not exactly one alternative is alive");
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_move_construct() {
  vf_no_abort("move construction aborted");
  const bool e = vf_bool();
  const int v = vf_int();
  {
    PO a = Make(e, v);
    PO b = std::move(a);
    Expect(b, e, v);
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_move_assign() {
  vf_no_abort("move assignment aborted");
  const bool e = vf_bool();
  const bool f = vf_bool();
  const int v = vf_int();
  const int w = vf_int();
  {
    PO a = Make(e, v);
    PO b = Make(f, w);
    (void)a.err();
    a = std::move(b);
    Expect(a, f, w);
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_assign_value() {
  vf_no_abort("value assignment aborted");
  const bool e = vf_bool();
  const int v = vf_int();
  const int w = vf_int();
  {
    PO a = Make(e, v);
    (void)a.err();
    a = Probe(w);
    Expect(a, false, w);
    vf_assert(vf_live() == 1, "not exactly one alternative is alive");
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_assign_status() {
  vf_no_abort("error assignment aborted");
  const bool e = vf_bool();
  const int v = vf_int();
  const int w = vf_int();
  {
    PO a = Make(e, v);
    (void)a.err();
    a = rst::MakeStatus<Err>(w);
    Expect(a, true, w);
    vf_assert(vf_live() == 1, "not exactly one alternative is alive");
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_three_assignments() {
  vf_no_abort("a chain of assignments aborted");
  const bool e = vf_bool();
  const bool f = vf_bool();
  {
    PO a = Make(e, 1);
    (void)a.err();
    a = Make(f, 2);
    Expect(a, f, 2);
    a = Make(!f, 3);
    Expect(a, !f, 3);
    a = Make(f, 4);
    Expect(a, f, 4);
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_take_status() {
  vf_no_abort("TakeStatus aborted on an inspected error");
  const int v = vf_int();
  {
    PO a = Make(true, v);
    if (a.err()) {
      rst::Status s = std::move(a).TakeStatus();
      vf_assert(s.err(), "TakeStatus lost the error");
      vf_assert(CodeOf(s) == v, "TakeStatus is another error");
    }
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_copyable_value() {
  vf_no_abort("a StatusOr of a trivially copyable value aborted");
  const bool e = vf_bool();
  const int v = vf_int();
  const int w = vf_int();
  {
    rst::StatusOr<int> a = MakeInt(e, v);
    vf_assert(a.err() == e, "err() wrong for a copied value");
    if (!e)
      vf_assert(*a == v, "value wrong after copy construction");
    a = w;
    vf_assert(!a.err(), "err() after assigning a value");
    vf_assert(*a == w, "value wrong after copy assignment");
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_copyable_struct() {
  vf_no_abort("a StatusOr of a trivially copyable struct aborted");
  const Pod p{vf_int(), vf_int()};
  const Pod q{vf_int(), vf_int()};
  rst::StatusOr<Pod> a = p;
  vf_assert(!a.err(), "err() of a value");
  vf_assert(a->a == p.a && a->b == p.b, "struct not copied");
  a = q;
  vf_assert(!a.err(), "err() of a value");
  vf_assert((*a).a == q.a && (*a).b == q.b, "struct not assigned");
  vf_reach("end");
}

void S02_status_construct() {
  vf_no_abort("construction from an error aborted");
  const int v = vf_int();
  {
    rst::Status s = rst::MakeStatus<Err>(v);
    PO a = std::move(s);
    Expect(a, true, v);
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

void S02_ignore() {
  vf_no_abort("an ignored StatusOr aborted");
  {
    PO a = Make(vf_bool(), 1);
    a.Ignore();
  }
  vf_assert(vf_live() == 0, "an alternative was not destroyed");
  vf_reach("end");
}

#ifndef NDEBUG
// ---------------------------------------------------------------------------
// The check is enforced.
void S02_value_before_err() {
  PO a = Make(false, 1);
  (void)*a;
  vf_unreachable("reading the value before err() did not abort");
}

void S02_value_arrow_before_err() {
  PO a = Make(false, 1);
  (void)a->get();
  vf_unreachable("-> before err() did not abort");
}

void S02_status_before_err() {
  PO a = Make(true, 1);
  (void)a.status();
  vf_unreachable("status() before err() did not abort");
}

void S02_take_before_err() {
  PO a = Make(true, 1);
  rst::Status s = std::move(a).TakeStatus();
  s.Ignore();
  vf_unreachable("TakeStatus() before err() did not abort");
}

void S02_value_of_error() {
  PO a = Make(true, 1);
  (void)a.err();
  (void)*a;
  vf_unreachable("reading the value of an error did not abort");
}

void S02_arrow_of_error() {
  PO a = Make(true, 1);
  (void)a.err();
  (void)a->get();
  vf_unreachable("-> on an error did not abort");
}

void S02_status_of_value() {
  PO a = Make(false, 1);
  (void)a.err();
  (void)a.status();
  vf_unreachable("status() of a value did not abort");
}

void S02_take_of_value() {
  PO a = Make(false, 1);
  (void)a.err();
  rst::Status s = std::move(a).TakeStatus();
  s.Ignore();
  vf_unreachable("TakeStatus() of a value did not abort");
}

void S02_drop_unchecked() {
  { PO a = Make(vf_bool(), 1); }
  vf_unreachable("dropping an uninspected StatusOr did not abort");
}

void S02_assign_over_unchecked() {
  PO a = Make(vf_bool(), 1);
  PO b = Make(vf_bool(), 1);
  (void)b.err();
  a = std::move(b);
  vf_unreachable("assigning over an uninspected StatusOr did not abort");
}

void S02_assign_value_over_unchecked() {
  PO a = Make(vf_bool(), 1);
  a = Probe(3);
  vf_unreachable("assigning a value over an uninspected StatusOr did not abort");
}

void S02_assign_copy_over_unchecked() {
  rst::StatusOr<int> a = MakeInt(vf_bool(), 1);
  const int v = vf_int();
  a = v;
  vf_unreachable("assigning a value over an uninspected StatusOr did not abort");
}

void S02_assign_error_over_unchecked() {
  PO a = Make(vf_bool(), 1);
  a = rst::MakeStatus<Err>(3);
  vf_unreachable("assigning an error over an uninspected StatusOr did not abort");
}

void S02_moved_target_unchecked() {
  PO a = Make(vf_bool(), 1);
  (void)a.err();
  { PO b = std::move(a); }
  vf_unreachable("a move-constructed StatusOr need not be inspected again");
}

void S02_assigned_target_unchecked() {
  PO a = Make(vf_bool(), 1);
  PO b = Make(vf_bool(), 2);
  (void)a.err();
  (void)b.err();
  a = std::move(b);
  { PO c = std::move(b); c.Ignore(); }
  { (void)*a; }
  vf_unreachable("an assigned StatusOr need not be inspected again");
}

void S02_assigned_target_dropped() {
  {
    PO a = Make(vf_bool(), 1);
    (void)a.err();
    a = Make(vf_bool(), 2);
  }
  vf_unreachable("an assigned StatusOr may be dropped uninspected");
}

void S02_value_assigned_dropped() {
  {
    PO a = Make(vf_bool(), 1);
    (void)a.err();
    a = Probe(2);
  }
  vf_unreachable("a StatusOr assigned a value may be dropped uninspected");
}

void S02_error_assigned_dropped() {
  {
    PO a = Make(vf_bool(), 1);
    (void)a.err();
    a = rst::MakeStatus<Err>(2);
  }
  vf_unreachable("a StatusOr assigned an error may be dropped uninspected");
}

void S02_copy_assigned_dropped() {
  {
    rst::StatusOr<int> a = MakeInt(vf_bool(), 1);
    (void)a.err();
    const int v = vf_int();
    a = v;
  }
  vf_unreachable("a StatusOr assigned a copied value may be dropped uninspected");
}
#endif

// ---------------------------------------------------------------------------
// S04: the macros.
namespace {

rst::Status Counted(bool err, int v) {
  vf_log(1, v);
  return MakeS(err, v);
}

PO CountedOr(bool err, int v) {
  vf_log(1, v);
  return Make(err, v);
}

rst::Status TryS(bool err, int v) {
  RST_TRY(Counted(err, v));
  vf_log(2, v);
  return rst::Status::OK();
}

PO TryOr(bool err, int v) {
  RST_TRY(Counted(err, v));
  vf_log(2, v);
  return Probe(v + 1);
}

rst::Status TryAssign(bool err, int v) {
  PO p = Probe(0);
  (void)p.err();
  RST_TRY_ASSIGN(p, CountedOr(err, v));
  vf_log(2, p->get());
  return rst::Status::OK();
}

rst::Status TryUnwrap(bool err, int v) {
  Probe p(0);
  RST_TRY_ASSIGN_UNWRAP(p, CountedOr(err, v));
  vf_log(2, p.get());
  return rst::Status::OK();
}

rst::Status TryCreate(bool err, int v) {
  RST_TRY_CREATE(auto, p, CountedOr(err, v));
  vf_log(2, p->get());
  return rst::Status::OK();
}

PO TryCreateOr(bool err, int v) {
  RST_TRY_CREATE(PO, p, CountedOr(err, v));
  vf_log(2, p->get());
  return std::move(*p);
}

rst::Status TryUnderIf(bool c, bool err, int v) {
  if (c)
    RST_TRY(Counted(err, v));
  else
    vf_log(3, v);
  vf_log(2, v);
  return rst::Status::OK();
}

void CheckS(rst::Status s, bool err, int v) {
  vf_assert(vf_logged(0, 1, v), "the statement was not evaluated");
  vf_assert(vf_log_size() == (err ? 1 : 2), "the statement was evaluated again, or code after the error ran");
  vf_assert(s.err() == err, "the caller does not get an error exactly when there is one");
  if (err)
    vf_assert(CodeOf(s) == v, "the caller gets another error");
  else
    vf_assert(vf_logged(1, 2, v), "the value did not arrive in the named variable");
}

}  // namespace

void S04_try() {
  vf_no_abort("RST_TRY dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  CheckS(TryS(e, v), e, v);
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_or() {
  vf_no_abort("RST_TRY dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  {
    PO o = TryOr(e, v);
    vf_assert(vf_logged(0, 1, v), "the statement was not evaluated");
    vf_assert(vf_log_size() == (e ? 1 : 2), "the statement was evaluated again, or code after the error ran");
    Expect(o, e, e ? v : v + 1);
  }
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_assign() {
  vf_no_abort("RST_TRY_ASSIGN dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  CheckS(TryAssign(e, v), e, v);
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_unwrap() {
  vf_no_abort("RST_TRY_ASSIGN_UNWRAP dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  CheckS(TryUnwrap(e, v), e, v);
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_create() {
  vf_no_abort("RST_TRY_CREATE dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  CheckS(TryCreate(e, v), e, v);
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_create_or() {
  vf_no_abort("RST_TRY_CREATE dropped an uninspected status");
  const bool e = vf_bool();
  const int v = vf_int();
  {
    PO o = TryCreateOr(e, v);
    vf_assert(vf_log_size() == (e ? 1 : 2), "the statement was evaluated again, or code after the error ran");
    Expect(o, e, v);
  }
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S04_try_nested_if() {
  vf_no_abort("RST_TRY under an if dropped an uninspected status");
  const bool e = vf_bool();
  const bool c = vf_bool();
  const int v = vf_int();
  rst::Status s = TryUnderIf(c, e, v);
  vf_assert(s.err() == (c && e), "the caller does not get an error exactly when there is one");
  vf_reach("end");
}
