#include <functional>
#include <memory>
#include <utility>

#include "rst/bind/bind.h"
#include "rst/bind/bind_helpers.h"
#include "rst/memory/weak_ptr.h"
#include "vf.h"

namespace {

struct Obj : rst::SupportsWeakPtr<Obj> {
  int x = 1;
};

struct Other {
  virtual ~Other() = default;
  int o = 3;
};

struct Sub : Obj {
  int y = 2;
  Obj* self() { return this; }
};

}  // namespace

// ===========================================================================
// W01
void W01_alive_and_gone() {
  vf_no_abort("using a WeakPtr aborted");
  rst::WeakPtr<Obj> w;
  vf_assert(w.GetNullable() == nullptr, "a default constructed WeakPtr is not null");
  {
    Obj o;
    w = o.AsWeakPtr();
    vf_assert(w.GetNullable().get() == &o, "a WeakPtr to a live object is not its address");
    vf_assert(w.GetNullable().get() == &o, "a WeakPtr to a live object is not its address");
  }
  vf_assert(w.GetNullable() == nullptr, "a WeakPtr to a destroyed object is not null");
  vf_assert(w.GetNullable().get() == nullptr, "a WeakPtr to a destroyed object is not null");
  vf_reach("end");
}

void W01_null() {
  vf_no_abort("using a WeakPtr aborted");
  rst::WeakPtr<Obj> n = nullptr;
  vf_assert(n.GetNullable() == nullptr, "a null-constructed WeakPtr is not null");
  Obj o;
  n = o.AsWeakPtr();
  vf_assert(n.GetNullable().get() == &o, "assignment lost the object");
  n = nullptr;
  vf_assert(n.GetNullable() == nullptr, "a null-assigned WeakPtr is not null");
  n = o.AsWeakPtr();
  vf_assert(n.GetNullable().get() == &o, "assignment after null lost the object");
  vf_reach("end");
}

void W01_copy_move() {
  vf_no_abort("using a WeakPtr aborted");
  rst::WeakPtr<Obj> c2;
  rst::WeakPtr<Obj> m2;
  rst::WeakPtr<Obj> s;
  Obj* addr = nullptr;
  {
    Obj o;
    addr = &o;
    rst::WeakPtr<Obj> w = o.AsWeakPtr();
    rst::WeakPtr<Obj> c = w;
    vf_assert(c.GetNullable().get() == addr, "copy construction lost the object");
    vf_assert(w.GetNullable().get() == addr, "copy construction changed the source");
    c2 = w;
    vf_assert(c2.GetNullable().get() == addr, "copy assignment lost the object");
    vf_assert(w.GetNullable().get() == addr, "copy assignment changed the source");
    rst::WeakPtr<Obj> m = std::move(c);
    vf_assert(m.GetNullable().get() == addr, "move construction lost the object");
    m2 = std::move(m);
    vf_assert(m2.GetNullable().get() == addr, "move assignment lost the object");
    s = w;
  }
  vf_assert(c2.GetNullable() == nullptr, "a copied WeakPtr outlived its object");
  vf_assert(m2.GetNullable() == nullptr, "a moved WeakPtr outlived its object");
  vf_assert(s.GetNullable() == nullptr, "an assigned WeakPtr outlived its object");
  vf_reach("end");
}

void W01_derived_to_base() {
  vf_no_abort("using a WeakPtr aborted");
  rst::WeakPtr<Obj> a, b, c, d;
  rst::WeakPtr<const Obj> e;
  {
    Sub o;
    Obj* addr = o.self();
    rst::WeakPtr<Sub> w = rst::AsWeakPtr(&o);
    vf_assert(w.GetNullable().get() == &o, "AsWeakPtr of a derived object is not its address");
    rst::WeakPtr<Obj> k = w;
    vf_assert(k.GetNullable().get() == addr, "derived-to-base copy construction lost the object");
    vf_assert(w.GetNullable().get() == &o, "derived-to-base copy construction changed the source");
    b = w;
    vf_assert(b.GetNullable().get() == addr, "derived-to-base copy assignment lost the object");
    rst::WeakPtr<Sub> w2 = w;
    c = std::move(w2);
    vf_assert(c.GetNullable().get() == addr, "derived-to-base move assignment lost the object");
    rst::WeakPtr<Sub> w3 = w;
    rst::WeakPtr<Obj> l = std::move(w3);
    vf_assert(l.GetNullable().get() == addr, "derived-to-base move construction lost the object");
    a = k;
    d = l;
    e = w;
    vf_assert(e.GetNullable().get() == addr, "conversion to const lost the object");
  }
  vf_assert(a.GetNullable() == nullptr, "a converted WeakPtr outlived its object");
  vf_assert(b.GetNullable() == nullptr, "a converted WeakPtr outlived its object");
  vf_assert(c.GetNullable() == nullptr, "a converted WeakPtr outlived its object");
  vf_assert(d.GetNullable() == nullptr, "a converted WeakPtr outlived its object");
  vf_assert(e.GetNullable() == nullptr, "a converted WeakPtr outlived its object");
  vf_reach("end");
}

// Every form of assignment, from and to a pointer that is null, refers to a
// live object or refers to one that is gone.
template <class T, class S, class O, bool kMove, class MakeT, class MakeS>
void AssignAny(MakeT make_t, MakeS make_s) {
  O tlive, live;
  auto tgone = std::make_unique<O>();
  auto gone = std::make_unique<O>();
  rst::WeakPtr<T> t;
  if (vf_bool())
    t = make_t(tlive);
  else if (vf_bool())
    t = make_t(*tgone);
  rst::WeakPtr<S> s;
  T* expect = nullptr;
  if (vf_bool()) {
    s = make_s(live);
    expect = &live;
  } else if (vf_bool()) {
    s = make_s(*gone);
  }
  tgone = nullptr;
  gone = nullptr;
  if (kMove)
    t = std::move(s);
  else
    t = s;
  vf_assert(t.GetNullable().get() == expect, "assignment makes the target what the source was");
  rst::WeakPtr<T> u = t;
  vf_assert(u.GetNullable().get() == expect, "and so does copying it on");
  if (!kMove) {
    vf_assert(s.GetNullable().get() == expect, "copying keeps the source");
    rst::WeakPtr<T> v = s;
    vf_assert(v.GetNullable().get() == expect, "constructing from it gives the same object");
  }
}

void W01_assign_same_copy() {
  vf_no_abort("assigning a WeakPtr aborted");
  const auto mk = [](Obj& o) { return o.AsWeakPtr(); };
  AssignAny<Obj, Obj, Obj, false>(mk, mk);
}
void W01_assign_same_move() {
  vf_no_abort("assigning a WeakPtr aborted");
  const auto mk = [](Obj& o) { return o.AsWeakPtr(); };
  AssignAny<Obj, Obj, Obj, true>(mk, mk);
}
void W01_assign_base_copy() {
  vf_no_abort("assigning a WeakPtr aborted");
  AssignAny<Obj, Sub, Sub, false>([](Sub& o) { return o.AsWeakPtr(); }, [](Sub& o) { return rst::AsWeakPtr(&o); });
}
void W01_assign_base_move() {
  vf_no_abort("assigning a WeakPtr aborted");
  AssignAny<Obj, Sub, Sub, true>([](Sub& o) { return o.AsWeakPtr(); }, [](Sub& o) { return rst::AsWeakPtr(&o); });
}
void W01_assign_const_copy() {
  vf_no_abort("assigning a WeakPtr aborted");
  AssignAny<const Obj, Obj, Obj, false>([](Obj& o) { return std::as_const(o).AsWeakPtr(); },
                                        [](Obj& o) { return o.AsWeakPtr(); });
}
void W01_assign_const_move() {
  vf_no_abort("assigning a WeakPtr aborted");
  AssignAny<const Obj, Obj, Obj, true>([](Obj& o) { return std::as_const(o).AsWeakPtr(); },
                                       [](Obj& o) { return o.AsWeakPtr(); });
}
void W01_assign_null() {
  vf_no_abort("assigning a WeakPtr aborted");
  Obj live;
  auto gone = std::make_unique<Obj>();
  rst::WeakPtr<Obj> t;
  if (vf_bool())
    t = live.AsWeakPtr();
  else if (vf_bool())
    t = gone->AsWeakPtr();
  if (vf_bool())
    gone = nullptr;
  if (vf_bool())
    t = nullptr;
  else
    t = rst::WeakPtr<Obj>(nullptr);
  vf_assert(t.GetNullable() == nullptr, "a null-assigned WeakPtr is null");
}
void W01_self_assign() {
  vf_no_abort("assigning a WeakPtr aborted");
  Obj live;
  rst::WeakPtr<Obj> t = live.AsWeakPtr();
  auto& r = t;
  t = r;
  vf_assert(t.GetNullable().get() == &live, "self-assignment keeps the object");
}

void W01_const() {
  vf_no_abort("using a WeakPtr aborted");
  rst::WeakPtr<const Obj> w;
  {
    const Obj o;
    w = o.AsWeakPtr();
    vf_assert(w.GetNullable().get() == &o, "a WeakPtr to a const object is not its address");
    rst::WeakPtr<const Obj> v = rst::AsWeakPtr(&o);
    vf_assert(v.GetNullable().get() == &o, "a WeakPtr to a const object is not its address");
  }
  vf_assert(w.GetNullable() == nullptr, "a WeakPtr to a destroyed object is not null");
  vf_reach("end");
}

void W01_two_objects() {
  vf_no_abort("using a WeakPtr aborted");
  Obj a;
  rst::WeakPtr<Obj> wa = a.AsWeakPtr();
  rst::WeakPtr<Obj> wb;
  {
    Obj b;
    wb = b.AsWeakPtr();
    vf_assert(wb.GetNullable().get() == &b, "a WeakPtr yields another object");
    vf_assert(wa.GetNullable().get() == &a, "a WeakPtr yields another object");
  }
  vf_assert(wb.GetNullable() == nullptr, "a WeakPtr outlived its object");
  vf_assert(wa.GetNullable().get() == &a, "a WeakPtr died with another object");
  wb = wa;
  vf_assert(wb.GetNullable().get() == &a, "reassignment lost the object");
  vf_reach("end");
}

// Whatever a WeakPtr is after it was moved from, it is no way to a dead object.
void W01_moved_from() {
  vf_no_abort("using a WeakPtr aborted");
  Obj a;
  std::unique_ptr<Obj> b = std::make_unique<Obj>();
  rst::WeakPtr<Obj> wa = a.AsWeakPtr();
  rst::WeakPtr<Obj> wb = b->AsWeakPtr();
  if (vf_bool())
    wa = std::move(wb);
  else
    rst::WeakPtr<Obj> c(std::move(wb));
  b.reset();
  auto n = wb.GetNullable();
  Obj* const p = n.get();
  vf_assert(p == nullptr || p == &a, "a WeakPtr that was moved from yields a dead object");
  auto m = wa.GetNullable();
  vf_assert(m.get() == nullptr || m.get() == &a, "a WeakPtr outlived its object");
  vf_reach("end");
}

void W01_moved_from_converted() {
  vf_no_abort("using a WeakPtr aborted");
  Obj a;
  std::unique_ptr<Obj> b = std::make_unique<Obj>();
  rst::WeakPtr<const Obj> wa = a.AsWeakPtr();
  rst::WeakPtr<Obj> wb = b->AsWeakPtr();
  if (vf_bool())
    wa = std::move(wb);
  else
    rst::WeakPtr<const Obj> c(std::move(wb));
  b.reset();
  auto n = wb.GetNullable();
  Obj* const p = n.get();
  vf_assert(p == nullptr || p == &a, "a WeakPtr that was moved from yields a dead object");
  auto m = wa.GetNullable();
  vf_assert(m.get() == nullptr || m.get() == &a, "a WeakPtr outlived its object");
  vf_reach("end");
}

void W01_conditional() {
  vf_no_abort("using a WeakPtr aborted");
  std::unique_ptr<Obj> o = std::make_unique<Obj>();
  rst::WeakPtr<Obj> w = o->AsWeakPtr();
  const bool kill = vf_bool();
  Obj* p = o.get();
  if (kill)
    o.reset();
  rst::WeakPtr<Obj> c = w;
  auto n = c.GetNullable();
  if (kill)
    vf_assert(n.get() == nullptr, "a WeakPtr outlived its object");
  else
    vf_assert(n.get() == p, "a WeakPtr to a live object is not its address");
}

// ===========================================================================
// W02
namespace {

struct Target : rst::SupportsWeakPtr<Target> {
  explicit Target(int i) : id(i) {}
  void Call0() { vf_log(1, id); }
  void Call2(int a, int b) {
    vf_log(1, id);
    vf_log(2, a);
    vf_log(3, b);
  }
  void CallProbe(const vf::Probe& p) {
    vf_log(1, id);
    vf_log(2, p.get());
  }
  void CallText(std::string s) {
    vf_log(1, id);
    text = std::move(s);
  }
  void CallOwned(int a, std::unique_ptr<int> p) {
    vf_log(1, id);
    vf_log(2, a);
    vf_log(3, p == nullptr ? -1 : *p);
  }
  int id;
  std::string text;
};

struct Shared {
  explicit Shared(int i) : id(i) { vf_ctor(this); }
  ~Shared() { vf_dtor(this); }
  void Call2(int a, int b) {
    vf_use(this);
    vf_log(1, id);
    vf_log(2, a);
    vf_log(3, b);
    if (drop != nullptr)
      drop->reset();
    vf_use(this);
    vf_log(4, id);
  }
  void CallText(std::string s) {
    vf_log(1, id);
    text = std::move(s);
  }
  void CallOwned(int a, std::unique_ptr<int> p) {
    vf_log(1, id);
    vf_log(2, a);
    vf_log(3, p == nullptr ? -1 : *p);
  }
  int id;
  std::string text;
  std::shared_ptr<Shared>* drop = nullptr;
};

}  // namespace

void W02_weak_alive() {
  vf_no_abort("calling a bound function aborted");
  Target t(vf_int());
  const int id = t.id;
  const int a = vf_int();
  const int b = vf_int();
  auto f = rst::Bind(&Target::Call2, t.AsWeakPtr(), a, b);
  vf_assert(vf_log_size() == 0, "Bind itself called the function");
  f();
  vf_assert(vf_log_size() == 3, "the function was not called exactly once");
  vf_assert(vf_logged(0, 1, id), "the function was called on another object");
  vf_assert(vf_logged(1, 2, a) && vf_logged(2, 3, b), "the bound arguments did not arrive in order");
  f();
  vf_assert(vf_log_size() == 6, "a second call did not call the function once more");
  vf_assert(vf_logged(4, 2, a) && vf_logged(5, 3, b), "the bound arguments changed");
  vf_reach("end");
}

void W02_weak_gone() {
  vf_no_abort("calling a bound function aborted");
  std::unique_ptr<Target> t = std::make_unique<Target>(7);
  auto f = rst::Bind(&Target::Call0, t->AsWeakPtr());
  t.reset();
  f();
  vf_assert(vf_log_size() == 0, "the function was called although the object is gone");
  vf_reach("end");
}

void W02_weak_null() {
  vf_no_abort("calling a bound function aborted");
  auto f = rst::Bind(&Target::Call0, rst::WeakPtr<Target>());
  f();
  vf_assert(vf_log_size() == 0, "the function was called although there is no object");
  vf_reach("end");
}

void W02_weak_maybe() {
  vf_no_abort("calling a bound function aborted");
  std::unique_ptr<Target> t = std::make_unique<Target>(7);
  const int a = vf_int();
  std::function<void()> f = rst::Bind(&Target::Call2, t->AsWeakPtr(), a, 5);
  const bool kill = vf_bool();
  if (kill)
    t.reset();
  f();
  vf_assert(vf_log_size() == (kill ? 0 : 3), "the function is not called exactly when the object is alive");
  if (!kill)
    vf_assert(vf_logged(1, 2, a) && vf_logged(2, 3, 5), "the bound arguments did not arrive in order");
  vf_reach("end");
}

void W02_function_object() {
  vf_no_abort("calling a bound function aborted");
  Target t(4);
  const int a = vf_int();
  auto f = rst::Bind([](Target* self, int x) { vf_log(1, self->id); vf_log(2, x); }, t.AsWeakPtr(), a);
  f();
  vf_assert(vf_log_size() == 2 && vf_logged(0, 1, 4) && vf_logged(1, 2, a),
            "a function object was not called once with the object and the arguments");
  vf_reach("end");
}

void W02_shared_alive() {
  vf_no_abort("calling a bound function aborted");
  std::shared_ptr<Shared> s = std::make_shared<Shared>(9);
  const int a = vf_int();
  const int b = vf_int();
  auto f = rst::Bind(&Shared::Call2, std::weak_ptr<Shared>(s), a, b);
  vf_assert(vf_log_size() == 0, "Bind itself called the function");
  f();
  vf_assert(vf_log_size() == 4, "the function was not called exactly once");
  vf_assert(vf_logged(0, 1, 9) && vf_logged(1, 2, a) && vf_logged(2, 3, b),
            "the object or the bound arguments did not arrive");
  s.reset();
  vf_assert(vf_live() == 0, "the callable holds a strong reference");
  f();
  vf_assert(vf_log_size() == 4, "the function was called although the object is gone");
  vf_reach("end");
}

void W02_shared_kept_alive() {
  vf_no_abort("calling a bound function aborted");
  std::shared_ptr<Shared> s = std::make_shared<Shared>(9);
  s->drop = &s;
  auto f = rst::Bind(&Shared::Call2, std::weak_ptr<Shared>(s), 1, 2);
  f();
  vf_assert(vf_log_size() == 4, "the object was not kept alive for the whole call");
  vf_assert(vf_live() == 0, "the callable keeps the object alive");
  vf_reach("end");
}

// Another thread may drop the last reference at any time.
namespace {
struct Raced {
  void Call(int a) {
    vf_log(1, value);
    vf_log(2, a);
  }
  int value = 3;
};
}  // namespace

void W02_shared_raced() {
  vf_no_abort("calling a bound function aborted");
  std::shared_ptr<Raced> s = std::make_shared<Raced>();
  auto f = rst::Bind(&Raced::Call, std::weak_ptr<Raced>(s), 5);
  vf_racy_weak();
  f();
  vf_assert(vf_log_size() == 0 || (vf_log_size() == 2 && vf_logged(0, 1, 3) && vf_logged(1, 2, 5)), "the function is called once, on the object, or not at all");
  if (vf_log_size() == 2)
    vf_reach("called");
}

// The callable keeps its bound arguments: the function gets them again by every call, even if it consumes them.
void W02_weak_again() {
  vf_no_abort("calling a bound function aborted");
  const std::string text = vf_string();
  Target t(1);
  auto f = rst::Bind(&Target::CallText, t.AsWeakPtr(), text);
  f();
  vf_assert(t.text == text, "the bound argument did not arrive");
  t.text = "";
  f();
  vf_assert(t.text == text, "the bound argument did not arrive when the function was called again");
  vf_reach("end");
}

void W02_shared_again() {
  vf_no_abort("calling a bound function aborted");
  const std::string text = vf_string();
  std::shared_ptr<Shared> s = std::make_shared<Shared>(1);
  auto f = rst::Bind(&Shared::CallText, std::weak_ptr<Shared>(s), text);
  f();
  vf_assert(s->text == text, "the bound argument did not arrive");
  s->text = "";
  f();
  vf_assert(s->text == text, "the bound argument did not arrive when the function was called again");
  vf_reach("end");
}

// Like std::bind: placeholders stand for the arguments of the call, which are passed on as they are given.
void W02_weak_placeholders() {
  vf_no_abort("calling a bound function aborted");
  Target t(1);
  const int a = vf_int();
  auto f = rst::Bind(&Target::CallOwned, t.AsWeakPtr(), a, std::placeholders::_1);
  std::unique_ptr<int> p = std::make_unique<int>(7);
  f(std::move(p));
  vf_assert(vf_log_size() == 3 && vf_logged(1, 2, a) && vf_logged(2, 3, 7), "an argument of the call did not arrive");
  vf_assert(p == nullptr, "an argument of the call was not handed over");
  auto g = rst::Bind(&Target::Call2, t.AsWeakPtr(), std::placeholders::_2, std::placeholders::_1);
  const int b = vf_int();
  const int c = vf_int();
  g(b, c);
  vf_assert(vf_log_size() == 6 && vf_logged(4, 2, c) && vf_logged(5, 3, b), "an argument of the call did not arrive");
  vf_reach("end");
}

void W02_shared_placeholders() {
  vf_no_abort("calling a bound function aborted");
  std::shared_ptr<Shared> s = std::make_shared<Shared>(1);
  const int a = vf_int();
  auto f = rst::Bind(&Shared::CallOwned, std::weak_ptr<Shared>(s), a, std::placeholders::_1);
  std::unique_ptr<int> p = std::make_unique<int>(7);
  f(std::move(p));
  vf_assert(vf_log_size() == 3 && vf_logged(1, 2, a) && vf_logged(2, 3, 7), "an argument of the call did not arrive");
  vf_assert(p == nullptr, "an argument of the call was not handed over");
  vf_reach("end");
}

void W02_helpers() {
  vf_no_abort("a helper callback aborted");
  std::function<void(int)> n = rst::NullFunction();
  vf_assert(n == nullptr, "NullFunction is not a null function");
  std::function<void(int)> d = rst::DoNothing();
  vf_assert(d != nullptr, "DoNothing is a null function");
  d(3);
  auto e = rst::DoNothing::Function<int>();
  vf_assert(e != nullptr, "DoNothing::Function is a null function");
  e(3);
  vf_assert(vf_log_size() == 0, "DoNothing does something");
  vf_reach("end");
}
