#include "rst/status/status.h"

#include <memory>
#include <utility>

#include "vf.h"

namespace {

class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(int code) : code_(code) { vf_ctor(this); }
  ~Err() override { vf_dtor(this); }
  const std::string& AsString() const override { return text_; }
  static char id_;
  int code_;
  std::string text_;
};

rst::Status Make(bool err) {
  if (err)
    return rst::MakeStatus<Err>(7);
  return rst::Status::OK();
}

}  // namespace

char Err::id_ = 0;

// --- dropping --------------------------------------------------------------
void S01_drop_unchecked_ok() {
  { rst::Status s = rst::Status::OK(); }
  vf_unreachable("an OK Status dropped without inspection did not abort");
}

void S01_drop_unchecked_error() {
  { rst::Status s = rst::MakeStatus<Err>(1); }
  vf_unreachable("an error Status dropped without inspection did not abort");
}

void S01_drop_temporary() {
  (void)rst::MakeStatus<Err>(1);
  vf_unreachable("a discarded error Status did not abort");
}

void S01_drop_checked() {
  vf_no_abort("dropping an inspected Status aborted");
  const bool e = vf_bool();
  {
    rst::Status s = Make(e);
    vf_assert(s.err() == e, "err() does not tell whether the Status holds an error");
  }
  vf_assert(vf_live() == 0, "the error object was not released");
  vf_reach("end");
}

void S01_drop_ignored() {
  vf_no_abort("dropping an ignored Status aborted");
  {
    rst::Status s = Make(vf_bool());
    s.Ignore();
  }
  vf_assert(vf_live() == 0, "the error object was not released");
  vf_reach("end");
}

// --- GetError --------------------------------------------------------------
void S01_get_error_unchecked() {
  rst::Status s = rst::MakeStatus<Err>(1);
  (void)s.GetError();
  vf_unreachable("GetError() before err() did not abort");
}

void S01_get_error_checked() {
  vf_no_abort("GetError() after err() aborted");
  rst::Status s = rst::MakeStatus<Err>(5);
  if (s.err()) {
    auto e = s.GetError();
    vf_assert(static_cast<const Err*>(e.get())->code_ == 5,
              "GetError() is not the error the Status was made from");
  } else {
    vf_unreachable("err() false on an error");
  }
}

void S01_get_error_twice() {
  vf_no_abort("an inspected Status does not stay inspected");
  rst::Status s = rst::MakeStatus<Err>(5);
  (void)s.err();
  (void)s.GetError();
  vf_assert(s.err(), "err() changed");
  (void)s.GetError();
}

// --- moves -----------------------------------------------------------------
void S01_move_ctor_target_unchecked() {
  rst::Status s = Make(vf_bool());
  (void)s.err();
  { rst::Status t = std::move(s); }
  vf_unreachable("a move-constructed Status is not to be inspected again");
}

void S01_move_ctor_ok() {
  vf_no_abort("a moved-from Status aborted");
  const bool e = vf_bool();
  {
    rst::Status s = Make(e);
    rst::Status t = std::move(s);
    vf_assert(t.err() == e, "a move did not transfer the error");
    if (e)
      vf_assert(static_cast<const Err*>(t.GetError().get())->code_ == 7, "other error after a move");
  }
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S01_move_ctor_from_checked() {
  vf_no_abort("a moved-from Status aborted");
  const bool e = vf_bool();
  {
    rst::Status s = Make(e);
    (void)s.err();
    rst::Status t = std::move(s);
    vf_assert(t.err() == e, "a move did not transfer the error");
  }
  vf_assert(vf_live() == 0, "leak");
}

void S01_assign_over_unchecked() {
  rst::Status s = Make(vf_bool());
  rst::Status t = Make(vf_bool());
  (void)t.err();
  s = std::move(t);
  vf_unreachable("assigning over an uninspected Status did not abort");
}

void S01_assign_over_checked_target_unchecked() {
  rst::Status s = Make(vf_bool());
  (void)s.err();
  {
    rst::Status t = Make(vf_bool());
    (void)t.err();
    t = std::move(s);
  }
  vf_unreachable("an assigned Status is not to be inspected again");
}

void S01_assign_ok() {
  vf_no_abort("assignment over an inspected Status aborted");
  const bool a = vf_bool();
  const bool b = vf_bool();
  {
    rst::Status s = Make(a);
    rst::Status t = Make(b);
    (void)s.err();
    s = std::move(t);
    vf_assert(s.err() == b, "assignment did not transfer the error");
  }
  vf_assert(vf_live() == 0, "leak");
  vf_reach("end");
}

void S01_moved_from_reuse() {
  vf_no_abort("a moved-from Status cannot be assigned");
  const bool b = vf_bool();
  {
    rst::Status s = Make(vf_bool());
    rst::Status u = std::move(s);
    (void)u.err();
    s = Make(b);
    vf_assert(s.err() == b, "assignment to a moved-from Status lost the value");
  }
  vf_assert(vf_live() == 0, "leak");
}
