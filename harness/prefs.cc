// R01: preferences over a store that records its use, and over the in-memory store.
#include <memory>
#include <string>
#include <string_view>
#include <utility>

#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "rst/value/value.h"
#include "vf.h"

using rst::Preferences;
using rst::Value;

namespace {

// What the store holds and what it was asked for.
struct World {
  const Value* stored = nullptr;
  int gets = 0;
  int sets = 0;
  std::string get_path;
  std::string set_path;
  Value set_value;
};

struct Store : rst::PreferencesStore {
  explicit Store(World* w) : w(w) {}
  rst::Nullable<const Value*> GetValue(std::string_view path) const override {
    w->gets++;
    w->get_path = std::string(path);
    return w->stored;
  }
  void SetValue(std::string_view path, Value&& value) override {
    w->sets++;
    w->set_path = std::string(path);
    w->set_value = std::move(value);
  }
  World* w;
};

rst::NotNull<std::unique_ptr<rst::PreferencesStore>> Make(World* w) {
  return std::unique_ptr<rst::PreferencesStore>(std::make_unique<Store>(w));
}

// Registers a preference of the type numbered t.
void Register(Preferences& p, const std::string& path, int t) {
  std::string s = path;
  switch (t) {
    case 1:
      p.RegisterBoolPreference(std::move(s), true);
      break;
    case 2:
      p.RegisterIntPreference(std::move(s), 5);
      break;
    case 3:
      p.RegisterDoublePreference(std::move(s), 0.5);
      break;
    case 4:
      p.RegisterStringPreference(std::move(s), "d");
      break;
    case 5:
      p.RegisterArrayPreference(std::move(s), Value::Array());
      break;
    default:
      p.RegisterObjectPreference(std::move(s), Value::Object());
      break;
  }
}

void Get(const Preferences& p, std::string_view path, int t) {
  switch (t) {
    case 1:
      (void)p.GetBool(path);
      break;
    case 2:
      (void)p.GetInt(path);
      break;
    case 3:
      (void)p.GetDouble(path);
      break;
    case 4:
      (void)p.GetString(path);
      break;
    case 5:
      (void)p.GetArray(path);
      break;
    default:
      (void)p.GetObject(path);
      break;
  }
}

void Set(Preferences& p, std::string_view path, int t) {
  switch (t) {
    case 1:
      p.SetBool(path, true);
      break;
    case 2:
      p.SetInt(path, 7);
      break;
    case 3:
      p.SetDouble(path, 0.25);
      break;
    case 4:
      p.SetString(path, "x");
      break;
    case 5:
      p.SetArray(path, Value::Array());
      break;
    default:
      p.SetObject(path, Value::Object());
      break;
  }
}

int AnyType() {
  const int t = vf_int();
  vf_assume(t >= 1 && t <= 6);
  if (t == 1) return 1;
  if (t == 2) return 2;
  if (t == 3) return 3;
  if (t == 4) return 4;
  if (t == 5) return 5;
  return 6;
}

}  // namespace

// Another preference is registered before and one after the one that is read.
#define R01_READ(NAME, REGISTER, DEFAULT, GET, SAME_DEFAULT, STORED, SAME_STORED)                        \
  void R01_default_##NAME() {                                                                            \
    vf_no_abort("reading a registered preference aborted");                                              \
    World w;                                                                                             \
    Preferences p(Make(&w));                                                                             \
    const std::string path = vf_string(), o1 = vf_string(), o2 = vf_string();                            \
    vf_assume(path != o1 && path != o2 && o1 != o2);                                                     \
    Register(p, o1, 2);                                                                                  \
    p.REGISTER(std::string(path), DEFAULT);                                                              \
    Register(p, o2, 4);                                                                                  \
    decltype(auto) v = p.GET(path);                                                                      \
    vf_assert(SAME_DEFAULT, "a missing preference does not read as its registered default");             \
    vf_assert(w.get_path == path, "the store was asked for another path");                               \
    vf_assert(w.sets == 0, "reading writes to the store");                                               \
    vf_reach("end");                                                                                     \
  }                                                                                                      \
  void R01_stored_##NAME() {                                                                             \
    vf_no_abort("reading a registered preference aborted");                                              \
    World w;                                                                                             \
    Preferences p(Make(&w));                                                                             \
    const std::string path = vf_string(), o1 = vf_string();                                              \
    vf_assume(path != o1);                                                                               \
    Register(p, o1, 2);                                                                                  \
    p.REGISTER(std::string(path), DEFAULT);                                                              \
    const Value stored(STORED);                                                                          \
    w.stored = &stored;                                                                                  \
    decltype(auto) v = p.GET(path);                                                                      \
    vf_assert(SAME_STORED, "a stored preference does not read as the stored value");                     \
    vf_assert(w.get_path == path, "the store was asked for another path");                               \
    vf_assert(w.sets == 0, "reading writes to the store");                                               \
    vf_reach("end");                                                                                     \
  }

R01_READ(bool_true, RegisterBoolPreference, true, GetBool, v == true, false, v == false)
R01_READ(bool_false, RegisterBoolPreference, false, GetBool, v == false, true, v == true)
R01_READ(int, RegisterIntPreference, 17, GetInt, v == 17, -4, v == -4)
R01_READ(int_zero, RegisterIntPreference, 0, GetInt, v == 0, 2147483647, v == 2147483647)
R01_READ(double, RegisterDoublePreference, 1.5, GetDouble, v == 1.5, 0.25, v == 0.25)
R01_READ(double_int, RegisterDoublePreference, -3.0, GetDouble, v == -3.0, 0.0, v == 0.0)
R01_READ(string, RegisterStringPreference, std::string("def"), GetString, v == "def", std::string("st"), v == "st")
R01_READ(string_empty, RegisterStringPreference, std::string(), GetString, v.empty(), std::string("q"), v == "q")

void R01_symbolic() {
  World w;
  Preferences p(Make(&w));
  const std::string a = vf_string(), b = vf_string(), c = vf_string();
  vf_assume(a != b && b != c && a != c);
  const int i = vf_int();
  const bool x = vf_bool();
  const std::string s = vf_string();
  p.RegisterIntPreference(std::string(a), i);
  p.RegisterBoolPreference(std::string(b), x);
  p.RegisterStringPreference(std::string(c), std::string(s));
  vf_no_abort("reading a registered preference aborted");
  vf_assert(p.GetInt(a) == i, "another int default is read");
  vf_assert(p.GetBool(b) == x, "another bool default is read");
  vf_assert(p.GetString(c) == s, "another string default is read");
  vf_assert(p.GetInt(a) == i, "reading twice differs");
  vf_reach("end");
}

// Every stored value counts, also one that is zero or empty.
void R01_stored_any() {
  vf_no_abort("reading a registered preference aborted");
  World w;
  Preferences p(Make(&w));
  const std::string a = vf_string(), b = vf_string(), c = vf_string();
  vf_assume(a != b && b != c && a != c);
  p.RegisterIntPreference(std::string(a), 17);
  p.RegisterBoolPreference(std::string(b), true);
  p.RegisterStringPreference(std::string(c), "default");
  const int i = vf_int();
  const Value si(i);
  w.stored = &si;
  vf_assert(p.GetInt(a) == i, "a stored int does not read as the stored value");
  const bool x = vf_bool();
  const Value sx(x);
  w.stored = &sx;
  vf_assert(p.GetBool(b) == x, "a stored bool does not read as the stored value");
  const std::string t = vf_string();
  const Value st{std::string(t)};
  w.stored = &st;
  vf_assert(p.GetString(c) == t, "a stored string does not read as the stored value");
  vf_reach("end");
}

#define R01_EMPTY(NAME, REGISTER, TYPE, GET)                                                \
  void R01_stored_##NAME() {                                                                \
    vf_no_abort("reading a registered preference aborted");                                 \
    World w;                                                                                \
    Preferences p(Make(&w));                                                                \
    TYPE d;                                                                                 \
    vf_fill(&d, 1);                                                                         \
    p.REGISTER("p", std::move(d));                                                          \
    const Value stored{TYPE()};                                                             \
    w.stored = &stored;                                                                     \
    vf_assert(&p.GET("p") == &stored.GET(), "a stored empty container is not read as stored"); \
    vf_reach("end");                                                                        \
  }
R01_EMPTY(empty_array, RegisterArrayPreference, Value::Array, GetArray)
R01_EMPTY(empty_object, RegisterObjectPreference, Value::Object, GetObject)

void R01_stored_doubles() {
  vf_no_abort("reading a registered preference aborted");
  World w;
  Preferences p(Make(&w));
  p.RegisterDoublePreference("p", 1.5);
  const int i = vf_int();
  const Value stored(i);
  w.stored = &stored;
  vf_assert(p.GetDouble("p") == i, "a stored integral number does not read as the stored value");
  const Value neg(-0.5);
  w.stored = &neg;
  vf_assert(p.GetDouble("p") == -0.5, "a stored number does not read as the stored value");
  vf_reach("end");
}

void R01_array() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string();
  Value::Array d;
  vf_fill(&d, 1);
  p.RegisterArrayPreference(std::string(path), std::move(d));
  vf_no_abort("reading a registered preference aborted");
  vf_assert(vf_is(&p.GetArray(path), 1), "a missing array does not read as its registered default");
  Value::Array st;
  vf_fill(&st, 2);
  const Value stored(std::move(st));
  w.stored = &stored;
  vf_assert(vf_is(&p.GetArray(path), 2), "a stored array does not read as the stored value");
  vf_assert(&p.GetArray(path) == &stored.GetArray(), "a stored array is read from elsewhere");
  vf_assert(w.get_path == path, "the store was asked for another path");
  vf_reach("end");
}

void R01_object() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string();
  Value::Object d;
  vf_fill(&d, 1);
  p.RegisterObjectPreference(std::string(path), std::move(d));
  vf_no_abort("reading a registered preference aborted");
  vf_assert(vf_is(&p.GetObject(path), 1), "a missing object does not read as its registered default");
  Value::Object st;
  vf_fill(&st, 2);
  const Value stored(std::move(st));
  w.stored = &stored;
  vf_assert(vf_is(&p.GetObject(path), 2), "a stored object does not read as the stored value");
  vf_assert(w.get_path == path, "the store was asked for another path");
  vf_reach("end");
}

void R01_write() {
  vf_no_abort("writing a registered preference aborted");
  World w;
  Preferences p(Make(&w));
  const std::string a = vf_string(), b = vf_string(), c = vf_string(), d = vf_string();
  vf_assume(a != b && b != c && a != c && a != d && b != d && c != d);
  p.RegisterIntPreference(std::string(a), 1);
  p.RegisterBoolPreference(std::string(b), true);
  p.RegisterStringPreference(std::string(c), "d");
  p.RegisterDoublePreference(std::string(d), 0.5);
  const int i = vf_int();
  p.SetInt(a, i);
  vf_assert(w.sets == 1 && w.set_path == a && w.set_value.IsNumber() && w.set_value.GetDouble() == i,
            "SetInt does not hand the path and value to the store once");
  const bool x = vf_bool();
  p.SetBool(b, x);
  vf_assert(w.sets == 2 && w.set_path == b && w.set_value.IsBool() && w.set_value.GetBool() == x,
            "SetBool does not hand the path and value to the store once");
  const std::string s = vf_string();
  p.SetString(c, std::string(s));
  vf_assert(w.sets == 3 && w.set_path == c && w.set_value.IsString() && w.set_value.GetString() == s,
            "SetString does not hand the path and value to the store once");
  p.SetDouble(d, 0.125);
  vf_assert(w.sets == 4 && w.set_path == d && w.set_value.IsNumber() && w.set_value.GetDouble() == 0.125,
            "SetDouble does not hand the path and value to the store once");
  vf_assert(p.GetInt(a) == 1 && p.GetBool(b) == true, "writing changes a registered default");
  vf_reach("end");
}

void R01_write_containers() {
  vf_no_abort("writing a registered preference aborted");
  World w;
  Preferences p(Make(&w));
  const std::string a = vf_string(), b = vf_string();
  vf_assume(a != b);
  p.RegisterArrayPreference(std::string(a), Value::Array());
  p.RegisterObjectPreference(std::string(b), Value::Object());
  Value::Array v;
  vf_fill(&v, 3);
  p.SetArray(a, std::move(v));
  vf_assert(w.sets == 1 && w.set_path == a && w.set_value.IsArray() && vf_is(&w.set_value.GetArray(), 3),
            "SetArray does not hand the path and value to the store once");
  Value::Object o;
  vf_fill(&o, 4);
  p.SetObject(b, std::move(o));
  vf_assert(w.sets == 2 && w.set_path == b && w.set_value.IsObject() && vf_is(&w.set_value.GetObject(), 4),
            "SetObject does not hand the path and value to the store once");
  vf_reach("end");
}

// Every pair of types, read and written.
void R01_get_types() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string(), other = vf_string();
  vf_assume(path != other);
  const int t = AnyType(), u = AnyType();
  Register(p, other, u);
  Register(p, path, t);
  // an int preference is a number too, and so is a double one with an integral default
  const bool may = t == u || (t == 2 && u == 3);
  if (may)
    vf_no_abort("reading with the registered type aborted");
  Get(p, path, u);
#ifndef NDEBUG
  if (!may)
    vf_unreachable("a preference was read with a type other than the registered one");
#endif
  vf_reach("end");
}

void R01_set_types() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string(), other = vf_string();
  vf_assume(path != other);
  const int t = AnyType(), u = AnyType();
  Register(p, other, u);
  Register(p, path, t);
  const bool may = t == u || (t == 2 && u == 3) || (t == 3 && u == 2);
  if (may)
    vf_no_abort("writing with the registered type aborted");
  Set(p, path, u);
  vf_assert(w.sets == 1 && w.set_path == path, "the store was not handed the path once");
#ifndef NDEBUG
  if (!may)
    vf_unreachable("a preference was written with a type other than the registered one");
#endif
  vf_reach("end");
}

#ifndef NDEBUG
void R01_get_unregistered() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string(), other = vf_string();
  vf_assume(path != other);
  const int t = AnyType();
  Register(p, other, t);
  const Value stored = t == 1 ? Value(true) : Value(1);
  if (vf_bool())
    w.stored = &stored;
  Get(p, path, t);
  vf_unreachable("an unregistered preference was read");
}

void R01_set_unregistered() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string(), other = vf_string();
  vf_assume(path != other);
  const int t = AnyType();
  Register(p, other, t);
  Set(p, path, t);
  vf_unreachable("an unregistered preference was written");
}

void R01_register_twice() {
  World w;
  Preferences p(Make(&w));
  const std::string path = vf_string(), other = vf_string();
  vf_assume(path != other);
  const int t = AnyType(), u = AnyType();
  Register(p, path, t);
  Register(p, other, 1);
  Register(p, path, u);
  vf_unreachable("a preference was registered twice");
}
#endif

// The in-memory store.
void R01_memory() {
  vf_no_abort("using the memory store aborted");
  rst::MemoryPreferencesStore m;
  vf_assert(m.GetValue("a") == nullptr, "an empty store has a value");
  vf_assert(m.GetValue("a.b.c") == nullptr, "an empty store has a nested value");
  m.SetValue("a.b", Value(1));
  m.SetValue("a.c", Value("x"));
  m.SetValue("d", Value(true));
  auto x = m.GetValue("a.b");
  vf_assert(x != nullptr && x->IsNumber() && x->GetDouble() == 1.0, "a stored value is not found under its path");
  auto y = m.GetValue("a.c");
  vf_assert(y != nullptr && y->IsString() && y->GetString() == "x", "a second value is not found under its path");
  auto z = m.GetValue("d");
  vf_assert(z != nullptr && z->IsBool() && z->GetBool(), "a third value is not found under its path");
  vf_assert(m.GetValue("b") == nullptr, "a value is found under a part of its path");
  m.SetValue("a.b", Value(2));
  auto x2 = m.GetValue("a.b");
  vf_assert(x2 != nullptr && x2->GetDouble() == 2.0, "a value is not replaced");
  auto y2 = m.GetValue("a.c");
  vf_assert(y2 != nullptr && y2->GetString() == "x", "replacing a value changes another one");
  vf_reach("end");
}

void R01_memory_odd_paths() {
  vf_no_abort("using the memory store aborted");
  rst::MemoryPreferencesStore m;
  vf_assert(m.GetValue("") == nullptr, "an empty store has a value under the empty path");
  m.SetValue("a.b", Value(1));
  vf_assert(m.GetValue("") == nullptr && m.GetValue("a.") == nullptr && m.GetValue(".a.b") == nullptr && m.GetValue("a..b") == nullptr && m.GetValue("a.b.") == nullptr, "a value is found under another path");
  m.SetValue("", Value(2));
  m.SetValue("a.", Value(3));
  m.SetValue("a..c", Value(true));
  auto x = m.GetValue("");
  vf_assert(x != nullptr && x->IsNumber() && x->GetDouble() == 2.0, "a value is not found under the empty path");
  auto y = m.GetValue("a..c");
  vf_assert(y != nullptr && y->IsBool(), "a value is not found under a path with an empty segment");
  auto z = m.GetValue("a.b");
  vf_assert(z != nullptr && z->IsNumber() && z->GetDouble() == 1.0, "a value under an odd path changes another one");
  m.SetValue("d.", Value(4));
  auto w = m.GetValue("d.");
  vf_assert(w != nullptr && w->IsNumber() && w->GetDouble() == 4.0, "a value is not found under a path with a trailing dot");
}

void R01_memory_preferences() {
  vf_no_abort("using preferences in memory aborted");
  Preferences p(std::unique_ptr<rst::PreferencesStore>(std::make_unique<rst::MemoryPreferencesStore>()));
  const int i = vf_int(), j = vf_int();
  p.RegisterIntPreference("int.a", i);
  p.RegisterStringPreference("str", "d");
  vf_assert(p.GetInt("int.a") == i, "the default is not read");
  p.SetInt("int.a", j);
  vf_assert(p.GetInt("int.a") == j, "the written value is not read back");
  vf_assert(p.GetString("str") == "d", "writing one preference changes another");
  p.SetString("str", "e");
  vf_assert(p.GetString("str") == "e", "the written string is not read back");
  vf_assert(p.GetInt("int.a") == j, "writing one preference changes another");
  vf_reach("end");
}
