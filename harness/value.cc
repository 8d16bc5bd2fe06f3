#include <utility>

#include "rst/value/value.h"

#include "vf.h"

using rst::Value;
using Type = rst::Value::Type;

namespace {

// Arbitrary content of an arbitrary type.
struct In {
  int t = 0;
  int tag = 0;
  bool b = false;
  double d = 0;
  std::string s;
};

void Any(In& in, int tag) {
  in.tag = tag;
  in.t = vf_int();
  in.b = vf_bool();
  in.d = vf_double();
  vf_assume(std::isfinite(in.d));
  in.s = vf_string();
}

Value Make(const In& in) {
  switch (in.t) {
    case 0:
      return Value();
    case 1:
      return Value(in.b);
    case 2:
      return Value(in.d);
    case 3:
      return Value(std::string(in.s));
    case 4: {
      Value::Array a;
      vf_fill(&a, in.tag);
      return Value(std::move(a));
    }
    case 5: {
      Value::Object o;
      vf_fill(&o, in.tag);
      return Value(std::move(o));
    }
    default:
      break;
  }
  vf_assume(false);
  return Value();
}

bool Holds(const Value& v, const In& in) {
  switch (in.t) {
    case 0:
      return v.type() == Type::kNull;
    case 1:
      return v.type() == Type::kBool && v.GetBool() == in.b;
    case 2:
      return v.type() == Type::kNumber && !(v.GetDouble() != in.d);
    case 3:
      return v.type() == Type::kString && v.GetString() == in.s;
    case 4:
      return v.type() == Type::kArray && vf_is(&v.GetArray(), in.tag);
    default:
      return v.type() == Type::kObject && vf_is(&v.GetObject(), in.tag);
  }
}

bool IsOnly(const Value& v, Type t) {
  return v.IsNull() == (t == Type::kNull) && v.IsBool() == (t == Type::kBool) &&
         v.IsNumber() == (t == Type::kNumber) &&
         v.IsString() == (t == Type::kString) &&
         v.IsArray() == (t == Type::kArray) &&
         v.IsObject() == (t == Type::kObject);
}

const Value& At(const Value& v, std::string_view key) {
  const auto p = v.FindKey(key);
  vf_assert(p != nullptr, "the key is found");
  return *p;
}
Value& At(Value& v, std::string_view key) {
  auto p = v.FindKey(key);
  vf_assert(p != nullptr, "the key is found");
  return *p;
}
const Value& AtPath(const Value& v, std::string_view path) {
  const auto p = v.FindPath(path);
  vf_assert(p != nullptr, "the path is found");
  return *p;
}

}  // namespace

// ------------------------------------------------------------------ V01

void V01_construct() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  vf_assert(Holds(v, in), "a value has the type and content it was built from");
  vf_assert(static_cast<int>(v.type()) == in.t, "type() names the alternative");
}

void V01_integers() {
  const int i = vf_int();
  Value v(static_cast<std::int32_t>(i));
  vf_assert(v.IsNumber(), "an int makes a number");
  vf_assert(v.GetDouble() == static_cast<double>(i), "with the value of the int");
  const std::int64_t l = vf_long();
  vf_assume(l > -1000000000 && l < 1000000000);
  Value w(l);
  vf_assert(w.IsNumber(), "an int64 makes a number");
  vf_assert(w.GetDouble() == static_cast<double>(l), "with the value of the int64");
  Value s("text");
  vf_assert(s.IsString() && s.GetString() == "text", "a literal makes a string");
}

void V01_default_of_type() {
  Value n(Type::kNull);
  vf_assert(n.IsNull(), "kNull");
  Value b(Type::kBool);
  vf_assert(b.IsBool() && !b.GetBool(), "kBool is false");
  Value d(Type::kNumber);
  vf_assert(d.IsNumber() && d.GetDouble() == 0.0, "kNumber is zero");
  Value s(Type::kString);
  vf_assert(s.IsString() && s.GetString().empty(), "kString is empty");
  Value a(Type::kArray);
  vf_assert(a.IsArray() && a.GetArray().empty(), "kArray is empty");
  Value o(Type::kObject);
  vf_assert(o.IsObject() && o.GetObject().empty(), "kObject is empty");
}

void V01_predicates() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  vf_assert(IsOnly(v, v.type()), "exactly the predicate of the type holds");
}

void V01_move_construct() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  Value w(std::move(v));
  vf_assert(Holds(w, in), "moving takes type and content along");
  v = Value(true);
  vf_assert(v.IsBool() && v.GetBool(), "a moved-from value can be assigned");
}

void V01_moved_from_is_destructible() {
  In in;
  Any(in, 1);
  Value w;
  {
    Value v = Make(in);
    Value u(std::move(v));
    w = std::move(u);
  }
  vf_assert(Holds(w, in), "the content survives its former owners");
}

// All 36 pairs.
void V01_move_assign() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  Value v = Make(a);
  Value w = Make(b);
  v = std::move(w);
  vf_assert(Holds(v, b), "assignment transfers type and content");
}

void V01_move_assign_temporary() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  Value v = Make(a);
  Value& r = (v = Make(b));
  vf_assert(&r == &v, "assignment returns its target");
  vf_assert(Holds(v, b), "assignment transfers type and content");
}

void V01_assign_moved_from() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  Value v = Make(a);
  Value w(std::move(v));
  v = Make(b);
  vf_assert(Holds(v, b), "a moved-from value can be assigned again");
  vf_assert(Holds(w, a), "the other one keeps its content");
}

void V01_mutable_getters() {
  const std::string s = vf_string();
  Value v(Type::kString);
  v.GetString() = s;
  vf_assert(v.GetString() == s, "GetString gives access to the stored string");
  Value a(Type::kArray);
  vf_fill(&a.GetArray(), 3);
  vf_assert(vf_is(&std::as_const(a).GetArray(), 3), "GetArray the array");
  Value o(Type::kObject);
  vf_fill(&o.GetObject(), 4);
  vf_assert(vf_is(&std::as_const(o).GetObject(), 4), "GetObject the object");
}

// ------------------------------------------------------------------ V02

void V02_assign() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  Value v = Make(a);
  Value w = Make(b);
  v = std::move(w);
  vf_assert(Holds(v, b), "the target has the content of the source");
}

void V02_self() {
  In a;
  Any(a, 1);
  Value v = Make(a);
  Value& r = v;
  v = std::move(r);
  vf_assert(static_cast<int>(v.type()) == a.t, "self-move keeps the type");
  if (a.t <= 2)
    vf_assert(Holds(v, a), "self-move keeps plain content");
  v = Value(1.0);
  vf_assert(v.IsNumber(), "the value is usable after a self-move");
}

void V02_array_element() {
  In a;
  Any(a, 1);
  Value v(Type::kArray);
  v.GetArray().push_back(Value(true));
  v.GetArray().push_back(Make(a));
  v = std::move(v.GetArray()[1]);
  vf_assert(Holds(v, a), "an array takes over the content of its element");
}

void V02_object_entry() {
  In a;
  Any(a, 1);
  Value v(Type::kObject);
  v.SetKey("x", Value(true));
  v.SetKey("key", Make(a));
  v = std::move(At(v, "key"));
  vf_assert(Holds(v, a), "an object takes over the content of its entry");
}

void V02_deep() {
  In a;
  Any(a, 1);
  Value v(Type::kArray);
  v.GetArray().push_back(Value(Type::kObject));
  v.GetArray()[0].SetKey("key", Make(a));
  v = std::move(At(v.GetArray()[0], "key"));
  vf_assert(Holds(v, a), "a value takes over the content of a nested element");
}

// ------------------------------------------------------------------ V03

#ifndef NDEBUG
#define WRONG(name, pred, call)              \
  void V03_wrong_##name() {                  \
    In in;                                   \
    Any(in, 1);                              \
    Value v = Make(in);                      \
    if (v.pred())                            \
      return;                                \
    (void)v.call();                          \
    vf_unreachable(#call " checks the type"); \
  }                                          \
  void V03_wrong_const_##name() {            \
    In in;                                   \
    Any(in, 1);                              \
    const Value v = Make(in);                \
    if (v.pred())                            \
      return;                                \
    (void)v.call();                          \
    vf_unreachable("const " #call " checks the type"); \
  }
WRONG(bool, IsBool, GetBool)
WRONG(double, IsNumber, GetDouble)
WRONG(string, IsString, GetString)
WRONG(array, IsArray, GetArray)
WRONG(object, IsObject, GetObject)
WRONG(int, IsInt, GetInt)
WRONG(int64, IsInt64, GetInt64)

void V03_keys_need_object() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  if (v.IsObject())
    return;
  switch (vf_int()) {
    case 0:
      (void)v.FindKey("k");
      break;
    case 1:
      (void)v.FindKeyOfType("k", Type::kBool);
      break;
    case 2:
      (void)v.FindBoolKey("k");
      break;
    case 3:
      (void)v.FindInt64Key("k");
      break;
    case 4:
      (void)v.FindIntKey("k");
      break;
    case 5:
      (void)v.FindDoubleKey("k");
      break;
    case 6:
      (void)v.FindStringKey("k");
      break;
    case 7:
      (void)v.FindArrayKey("k");
      break;
    case 8:
      (void)v.FindObjectKey("k");
      break;
    case 9:
      (void)v.SetKey("k", Value());
      break;
    case 10:
      (void)v.RemoveKey("k");
      break;
    case 11:
      (void)v.SetPath("k", Value());
      break;
    case 12:
      (void)v.FindPath("k");
      break;
    case 13:
      (void)std::as_const(v).FindKey("k");
      break;
    case 14:
      (void)std::as_const(v).FindPath("k");
      break;
    default:
      vf_assume(false);
  }
  vf_unreachable("key access needs an object");
}

void V03_int64_too_small() {
  const std::int64_t l = vf_long();
  vf_assume(l < -9007199254740991);
  Value v(l);
  vf_unreachable("an int64 below -(2^53-1) is rejected");
}
void V03_int64_too_big() {
  const std::int64_t l = vf_long();
  vf_assume(l > 9007199254740991);
  Value v(l);
  vf_unreachable("an int64 above 2^53-1 is rejected");
}
void V03_non_finite() {
  const double d = vf_double();
  vf_assume(!std::isfinite(d));
  Value v(d);
  vf_unreachable("a non-finite number is rejected");
}
void V03_null_text() {
  const char* p = nullptr;
  Value v(p);
  vf_unreachable("a null text is rejected");
}
#endif

void V03_int64_in_range() {
  const std::int64_t l = vf_long();
  vf_assume(l >= -9007199254740991 && l <= 9007199254740991);
  vf_no_abort("every int64 in +-(2^53-1) is accepted");
  Value v(l);
}

void V03_right_type() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  const Value& c = v;
  vf_no_abort("a getter of the right type does not abort");
  if (v.IsBool())
    (void)v.GetBool();
  if (v.IsNumber())
    (void)v.GetDouble();
  if (v.IsString())
    vf_assert(&v.GetString() == &c.GetString(), "both overloads give the same string");
  if (v.IsArray())
    vf_assert(&v.GetArray() == &c.GetArray(), "both overloads give the same array");
  if (v.IsObject())
    vf_assert(&v.GetObject() == &c.GetObject(), "both overloads give the same object");
  if (v.IsInt())
    (void)v.GetInt();
  if (v.IsInt64())
    (void)v.GetInt64();
}

// An object with one arbitrary entry.
#define OBJECT                             \
  In in;                                   \
  Any(in, 1);                              \
  const std::string k = vf_string();       \
  Value v(Type::kObject);                  \
  v.SetKey(std::string(k), Make(in));      \
  const Value& c = v;                      \
  (void)c

void V03_find_bool() {
  OBJECT;
  const auto r = c.FindBoolKey(k);
  vf_assert(r.has_value() == (in.t == 1), "FindBoolKey finds exactly bools");
  if (in.t == 1)
    vf_assert(*r == in.b, "FindBoolKey returns the bool");
}
void V03_find_double() {
  OBJECT;
  const auto r = c.FindDoubleKey(k);
  vf_assert(r.has_value() == (in.t == 2), "FindDoubleKey finds exactly numbers");
  if (in.t == 2)
    vf_assert(!(*r != in.d), "FindDoubleKey returns the number");
}
void V03_find_int() {
  OBJECT;
  const auto r = c.FindIntKey(k);
  vf_assert(r.has_value() == At(c, k).IsInt(), "FindIntKey finds exactly ints");
  if (r.has_value())
    vf_assert(*r == At(c, k).GetInt(), "FindIntKey returns the int");
}
void V03_find_int64() {
  OBJECT;
  const auto r = c.FindInt64Key(k);
  vf_assert(r.has_value() == At(c, k).IsInt64(), "FindInt64Key finds exactly int64s");
  if (r.has_value())
    vf_assert(*r == At(c, k).GetInt64(), "FindInt64Key returns the int64");
}
void V03_find_string() {
  OBJECT;
  const auto r = c.FindStringKey(k);
  const bool found = r != nullptr;
  vf_assert(found == (in.t == 3), "FindStringKey finds exactly strings");
  if (found)
    vf_assert(*r == in.s, "FindStringKey returns the string");
}
void V03_find_array() {
  OBJECT;
  const auto r = c.FindArrayKey(k);
  const bool found = r != nullptr;
  vf_assert(found == (in.t == 4), "FindArrayKey finds exactly arrays");
  if (found)
    vf_assert(Holds(*r, in), "FindArrayKey returns the array");
}
void V03_find_object() {
  OBJECT;
  const auto r = c.FindObjectKey(k);
  const bool found = r != nullptr;
  vf_assert(found == (in.t == 5), "FindObjectKey finds exactly objects");
  if (found)
    vf_assert(Holds(*r, in), "FindObjectKey returns the object");
}
void V03_find_of_type() {
  OBJECT;
  const int t = vf_int();
  vf_assume(t >= 0 && t <= 5);
  const auto r = c.FindKeyOfType(k, static_cast<Type>(t));
  const bool found = r != nullptr;
  vf_assert(found == (in.t == t), "FindKeyOfType finds exactly the type");
  if (found)
    vf_assert(Holds(*r, in), "FindKeyOfType returns the entry");
  const auto m = v.FindKeyOfType(k, static_cast<Type>(t));
  vf_assert((m != nullptr) == (in.t == t), "so does the mutable overload");
}
void V03_find_missing() {
  OBJECT;
  const std::string o = vf_string();
  vf_assume(o != k);
  vf_assert(!c.FindBoolKey(o).has_value(), "FindBoolKey: nothing for a missing key");
  vf_assert(!c.FindIntKey(o).has_value(), "FindIntKey: nothing for a missing key");
  vf_assert(!c.FindInt64Key(o).has_value(), "FindInt64Key: nothing for a missing key");
  vf_assert(!c.FindDoubleKey(o).has_value(), "FindDoubleKey: nothing for a missing key");
  vf_assert(c.FindStringKey(o) == nullptr, "FindStringKey: nothing for a missing key");
  vf_assert(c.FindArrayKey(o) == nullptr, "FindArrayKey: nothing for a missing key");
  vf_assert(c.FindObjectKey(o) == nullptr, "FindObjectKey: nothing for a missing key");
  vf_assert(c.FindKeyOfType(o, Type::kNull) == nullptr, "FindKeyOfType: nothing for a missing key");
}

void V03_int_bounds() {
  vf_assert(Value(2147483647.0).IsInt() && Value(-2147483648.0).IsInt(), "the limits of int are ints");
  vf_assert(!Value(2147483648.0).IsInt() && !Value(-2147483649.0).IsInt(), "their neighbours are not");
  vf_assert(!Value(2147483647.5).IsInt() && !Value(-2147483648.5).IsInt() && !Value(0.5).IsInt() &&
                !Value(-0.5).IsInt() && !Value(1e300).IsInt(),
            "fractions and huge numbers are not ints");
  vf_assert(Value(0.0).IsInt() && Value(-1.0).IsInt() && Value(7.0).IsInt(), "integral numbers in range are ints");
  vf_assert(Value(2147483647.0).GetInt() == 2147483647 && Value(-2147483648.0).GetInt() == -2147483647 - 1,
            "GetInt at the limits");
}

void V03_int64_bounds() {
  vf_assert(Value(9007199254740991.0).IsInt64() && Value(-9007199254740991.0).IsInt64(),
            "+-(2^53-1) are int64s");
  vf_assert(!Value(9007199254740992.0).IsInt64() && !Value(-9007199254740992.0).IsInt64(), "+-2^53 are not");
  vf_assert(!Value(0.5).IsInt64() && !Value(-1.5).IsInt64() && !Value(1e300).IsInt64() && !Value(-1e300).IsInt64(),
            "fractions and huge numbers are not int64s");
  vf_assert(Value(0.0).IsInt64() && Value(-1.0).IsInt64() && Value(4294967296.0).IsInt64(),
            "integral numbers in range are int64s");
  vf_assert(Value(9007199254740991.0).GetInt64() == 9007199254740991 &&
                Value(-9007199254740991.0).GetInt64() == -9007199254740991,
            "GetInt64 at the limits");
}

void V03_int_any() {
  const int i = vf_int();
  Value v(i);
  vf_assert(v.IsInt() && v.IsInt64(), "every int is one");
  vf_assert(v.GetInt() == i && v.GetInt64() == i, "and comes back unchanged");
}

void V03_int64_any() {
  const std::int64_t l = vf_long();
  vf_assume(l >= -9007199254740991 && l <= 9007199254740991);
  Value v(l);
  vf_assert(v.IsInt64(), "every int64 in range is one");
  vf_assert(v.GetInt64() == l, "and comes back unchanged");
  vf_assert(v.IsInt() == (l >= -2147483648L && l <= 2147483647L), "and is an int exactly within its range");
}

void V03_predicates_only_numbers() {
  In in;
  Any(in, 1);
  Value v = Make(in);
  if (in.t == 2)
    return;
  vf_assert(!v.IsInt() && !v.IsInt64(), "only numbers are ints");
}

// ------------------------------------------------------------------ V04

void V04_scalars() {
  In in;
  Any(in, 1);
  if (in.t > 3)
    return;
  const Value v = Make(in);
  Value w = v.Clone();
  vf_assert(Holds(w, in), "a clone has the same type and content");
  vf_assert(Holds(v, in), "the original keeps its content");
}

void V04_string_is_independent() {
  const std::string s = vf_string();
  Value v{std::string(s)};
  Value w = v.Clone();
  w.GetString() = "other";
  vf_assert(v.GetString() == s, "changing the clone leaves the original alone");
}

void V04_array() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  if (a.t > 3 || b.t > 3)
    return;
  Value v(Type::kArray);
  v.GetArray().push_back(Make(a));
  v.GetArray().push_back(Make(b));
  const Value w = v.Clone();
  vf_assert(w.IsArray() && w.GetArray().size() == 2, "a cloned array has the same size");
  vf_assert(Holds(w.GetArray()[0], a) && Holds(w.GetArray()[1], b), "and the same elements in order");
  vf_assert(v.GetArray().size() == 2 && Holds(v.GetArray()[0], a) && Holds(v.GetArray()[1], b),
            "the original array is unchanged");
}

void V04_nested_array() {
  In a;
  Any(a, 1);
  if (a.t > 3)
    return;
  Value v(Type::kArray);
  v.GetArray().push_back(Value(Type::kArray));
  v.GetArray()[0].GetArray().push_back(Make(a));
  const Value w = v.Clone();
  vf_assert(w.GetArray().size() == 1 && w.GetArray()[0].IsArray(), "a nested array is cloned as an array");
  vf_assert(w.GetArray()[0].GetArray().size() == 1 && Holds(w.GetArray()[0].GetArray()[0], a),
            "with its elements");
  vf_assert(&w.GetArray()[0].GetArray() != &v.GetArray()[0].GetArray(), "in storage of its own");
}

void V04_empty() {
  Value a(Type::kArray);
  Value b(Type::kObject);
  const Value c = a.Clone();
  const Value d = b.Clone();
  vf_assert(c.IsArray() && c.GetArray().empty(), "an empty array stays empty");
  vf_assert(d.IsObject() && d.GetObject().empty(), "an empty object stays empty");
}

void V04_object() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  if (a.t > 3)
    return;
  b.t = 2;
  Value v(Type::kObject);
  v.SetKey("a", Make(a));
  v.SetKey("b", Make(b));
  const Value w = v.Clone();
  vf_assert(w.IsObject() && w.GetObject().size() == 2, "a cloned object has the same size");
  vf_assert(w.FindKey("a") != nullptr && w.FindKey("b") != nullptr, "and the same keys");
  vf_assert(Holds(At(w, "a"), a) && Holds(At(w, "b"), b), "with the same values");
  vf_assert(Holds(At(v, "a"), a) && Holds(At(v, "b"), b), "the original object is unchanged");
}

void V04_static_clones() {
  In a;
  Any(a, 1);
  if (a.t > 3)
    return;
  Value::Array x;
  x.push_back(Make(a));
  const Value::Array y = Value::Clone(x);
  vf_assert(y.size() == 1 && Holds(y[0], a), "Clone(Array) clones the elements");
  vf_assert(x.size() == 1 && Holds(x[0], a), "and keeps the original");
}

// A value nested two levels deep, of any shape with up to one child per level.
enum { kEmptyArray = 10, kEmptyObject, kArrayOf, kObjectOf };
struct Deep {
  int shape = 0;
  In leaf;
};

Value MakeDeep(const Deep& d) {
  switch (d.shape) {
    case kEmptyArray:
      return Value(Type::kArray);
    case kEmptyObject:
      return Value(Type::kObject);
    case kArrayOf: {
      Value v(Type::kArray);
      v.GetArray().push_back(Make(d.leaf));
      return v;
    }
    case kObjectOf: {
      Value v(Type::kObject);
      v.SetKey("k", Make(d.leaf));
      return v;
    }
    default:
      return Make(d.leaf);
  }
}

bool HoldsDeep(const Value& v, const Deep& d) {
  switch (d.shape) {
    case kEmptyArray:
      return v.IsArray() && v.GetArray().empty();
    case kEmptyObject:
      return v.IsObject() && v.GetObject().empty();
    case kArrayOf:
      return v.IsArray() && v.GetArray().size() == 1 && Holds(v.GetArray()[0], d.leaf);
    case kObjectOf:
      return v.IsObject() && v.GetObject().size() == 1 && v.FindKey("k") != nullptr && Holds(At(v, "k"), d.leaf);
    default:
      return Holds(v, d.leaf);
  }
}

void AnyDeep(Deep& d, int tag) {
  Any(d.leaf, tag);
  vf_assume(d.leaf.t >= 0 && d.leaf.t <= 3);
  d.shape = vf_int();
  vf_assume((d.shape >= kEmptyArray && d.shape <= kObjectOf) || d.shape == 0);
}

void V04_any_in_array() {
  Deep d;
  AnyDeep(d, 1);
  Value v(Type::kArray);
  const bool before = vf_bool(), after = vf_bool();
  if (before)
    v.GetArray().push_back(Value(true));
  const size_t at = v.GetArray().size();
  v.GetArray().push_back(MakeDeep(d));
  if (after)
    v.GetArray().push_back(Value(7));
  const Value w = v.Clone();
  vf_assert(w.IsArray() && w.GetArray().size() == v.GetArray().size(), "a cloned array has the same size");
  vf_assert(HoldsDeep(w.GetArray()[at], d), "an element of any shape is cloned with its shape and content");
  vf_assert(HoldsDeep(v.GetArray()[at], d), "and the original keeps it");
  if (before)
    vf_assert(w.GetArray()[0].IsBool() && w.GetArray()[0].GetBool(), "the element before it is cloned too");
  if (after)
    vf_assert(w.GetArray()[at + 1].IsInt() && w.GetArray()[at + 1].GetInt() == 7, "the element after it is cloned too");
}

void V04_any_in_object() {
  Deep d;
  AnyDeep(d, 1);
  Value v(Type::kObject);
  const bool before = vf_bool(), after = vf_bool();
  if (before)
    v.SetKey("a", Value(true));
  v.SetKey("m", MakeDeep(d));
  if (after)
    v.SetKey("z", Value(7));
  const Value w = v.Clone();
  vf_assert(w.IsObject() && w.GetObject().size() == v.GetObject().size(), "a cloned object has the same size");
  vf_assert(w.FindKey("m") != nullptr, "and the same keys");
  vf_assert(HoldsDeep(At(w, "m"), d), "an entry of any shape is cloned with its shape and content");
  vf_assert(HoldsDeep(At(v, "m"), d), "and the original keeps it");
  if (before)
    vf_assert(At(w, "a").IsBool() && At(w, "a").GetBool(), "the entry before it is cloned too");
  if (after)
    vf_assert(At(w, "z").IsInt() && At(w, "z").GetInt() == 7, "the entry after it is cloned too");
}

void V04_any_key() {
  In a;
  Any(a, 1);
  if (a.t > 3)
    return;
  const std::string key = vf_string();
  Value v(Type::kObject);
  v.SetKey(std::string(key), Make(a));
  const Value w = v.Clone();
  vf_assert(w.IsObject() && w.GetObject().size() == 1, "a cloned object has the same size");
  vf_assert(w.FindKey(key) != nullptr, "and the same key, whatever it is");
  vf_assert(Holds(At(w, key), a), "with the same value");
}

// ------------------------------------------------------------------ V05

void V05_other_type() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  if (a.t == b.t)
    return;
  const Value v = Make(a);
  const Value w = Make(b);
  vf_assert(!(v == w), "values of different types are unequal");
  vf_assert((v < w) == (a.t < b.t), "and ordered by type");
}

void V05_null() {
  const Value v, w;
  vf_assert(v == w && !(v < w), "nulls are equal");
}

void V05_bool() {
  const bool a = vf_bool(), b = vf_bool();
  const Value v(a), w(b);
  vf_assert((v == w) == (a == b), "bools compare by content");
  vf_assert((v < w) == (!a && b), "false is less than true");
}

void V05_string() {
  const std::string a = vf_string(), b = vf_string();
  const Value v{std::string(a)}, w{std::string(b)};
  vf_assert((v == w) == (a == b), "strings compare by content");
  vf_assert((v < w) == (a < b), "strings are ordered by content");
}

void V05_number_order() {
  const double a = vf_double(), b = vf_double();
  vf_assume(std::isfinite(a) && std::isfinite(b));
  const Value v(a), w(b);
  vf_assert((v < w) == (a < b), "numbers are ordered by value");
}

void V05_number_equal() {
  const double a = vf_double();
  vf_assume(std::isfinite(a));
  const Value v(a), w(a);
  vf_assert(v == w, "a number equals itself");
  vf_assert(!(v < w), "and is not less than itself");
}

void V05_number_distinct() {
  const Value v(1.0), w(2.0), x(-1.0), y(1000000.0), z(1000000.5);
  vf_assert(v != w && v != x && y != z, "different numbers are unequal");
  vf_assert(!(w == v) && !(x == v) && !(z == y), "in either order");
}

void V05_number_exclusive() {
  const double a = vf_double(), b = vf_double();
  vf_assume(std::isfinite(a) && std::isfinite(b));
  const Value v(a), w(b);
  vf_assert(!(v == w && v < w), "numbers: == and < never hold together");
}

void V05_array() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  a.t = b.t = 4;
  const Value v = Make(a), w = Make(b);
  vf_assert((v == w) == (v.GetArray() == w.GetArray()), "arrays compare element by element");
  vf_assert((v < w) == (v.GetArray() < w.GetArray()), "and are ordered by their elements");
}

void V05_object() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  a.t = b.t = 5;
  const Value v = Make(a), w = Make(b);
  vf_assert((v == w) == (v.GetObject() == w.GetObject()), "objects compare entry by entry");
  vf_assert((v < w) == (v.GetObject() < w.GetObject()), "and are ordered by their entries");
}

void V05_derived() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  const Value v = Make(a);
  const Value w = Make(b);
  vf_assert((v != w) == !(v == w), "!= is the opposite of ==");
  vf_assert((v > w) == (w < v), "> is < the other way round");
  vf_assert((v <= w) == !(w < v), "<= is not >");
  vf_assert((v >= w) == !(v < w), ">= is not <");
}

// ------------------------------------------------------------------ V06

void V06_set_find() {
  OBJECT;
  vf_assert(c.FindKey(k) != nullptr && Holds(At(c, k), in), "FindKey finds what SetKey stored");
  const std::string o = vf_string();
  vf_assert((c.FindKey(o) != nullptr) == (o == k), "and nothing under another key");
  vf_assert(v.FindKey(k).get() == c.FindKey(k).get(), "both overloads find the same entry");
}

void V06_set_returns() {
  In in;
  Any(in, 1);
  const std::string k = vf_string();
  Value v(Type::kObject);
  const auto p = v.SetKey(std::string(k), Make(in));
  vf_assert(p.get() == v.FindKey(k).get(), "SetKey returns the stored entry");
}

void V06_set_any_object() {
  In in;
  Any(in, 1);
  Value::Object obj;
  vf_fill(&obj, 7);
  Value v(std::move(obj));
  const std::string k = vf_string(), o = vf_string();
  const bool had = v.FindKey(o) != nullptr;
  v.SetKey(std::string(k), Make(in));
  vf_assert(v.FindKey(k) != nullptr && Holds(At(v, k), in), "SetKey in any object stores the value");
  if (o != k)
    vf_assert((v.FindKey(o) != nullptr) == had, "and touches no other key");
}

void V06_replace() {
  In a, b;
  Any(a, 1);
  Any(b, 2);
  const std::string k = vf_string();
  Value v(Type::kObject);
  v.SetKey(std::string(k), Make(a));
  v.SetKey(std::string(k), Make(b));
  vf_assert(Holds(At(v, k), b), "SetKey replaces the value under the key");
  vf_assert(v.GetObject().size() == 1, "without adding an entry");
}

void V06_remove() {
  Value::Object obj;
  vf_fill(&obj, 7);
  Value v(std::move(obj));
  const std::string k = vf_string(), o = vf_string();
  const bool had = v.FindKey(k) != nullptr;
  const bool had_o = v.FindKey(o) != nullptr;
  const bool r = v.RemoveKey(k);
  vf_assert(r == had, "RemoveKey tells whether the key was there");
  vf_assert(v.FindKey(k) == nullptr, "the key is gone");
  if (o != k)
    vf_assert((v.FindKey(o) != nullptr) == had_o, "RemoveKey touches no other key");
}

void V06_path_one_segment() {
  In in;
  Any(in, 1);
  Value v(Type::kObject);
  const auto p = v.SetPath("key", Make(in));
  vf_assert(v.GetObject().size() == 1, "one entry");
  vf_assert(v.FindKey("key") != nullptr && Holds(At(v, "key"), in), "a path without dots is a key");
  vf_assert(p.get() == v.FindKey("key").get(), "SetPath returns the entry");
  vf_assert(std::as_const(v).FindPath("key").get() == p.get(), "FindPath finds it");
  vf_assert(v.FindPath("other") == nullptr, "FindPath finds nothing else");
}

void V06_path_deep() {
  In in;
  Any(in, 1);
  Value v(Type::kObject);
  const auto p = v.SetPath("a.bc.d", Make(in));
  vf_assert(v.GetObject().size() == 1 && v.FindObjectKey("a") != nullptr, "the first segment is an object");
  const Value& a = At(v, "a");
  vf_assert(a.GetObject().size() == 1 && a.FindObjectKey("bc") != nullptr, "the second segment is an object in it");
  const Value& b = At(a, "bc");
  vf_assert(b.GetObject().size() == 1 && b.FindKey("d") != nullptr, "the last segment is a key of that");
  vf_assert(Holds(At(b, "d"), in), "and holds the value");
  vf_assert(p.get() == b.FindKey("d").get(), "SetPath returns the element it set");
  vf_assert(std::as_const(v).FindPath("a.bc.d").get() == p.get(), "FindPath finds it again");
  vf_assert(v.FindPath("a.bc.d").get() == p.get(), "the mutable FindPath, too");
  vf_assert(v.FindPath("a.bc").get() == a.FindKey("bc").get(), "FindPath stops at the last segment");
  vf_assert(v.FindPath("a.d") == nullptr && v.FindPath("bc.d") == nullptr && v.FindPath("a.x.d") == nullptr &&
                v.FindPath("d") == nullptr,
            "and finds nothing under other paths");
  if (in.t != 5)
    vf_assert(v.FindPath("a.bc.d.e") == nullptr, "nor below a value that is no object");
}

void V06_path_odd_dots() {
  Value v(Type::kObject);
  v.SetPath("a..b", Value(1.0));
  vf_assert(At(At(v, "a"), "").FindKey("b") != nullptr,
            "two dots have an empty segment between them");
  v.SetPath("c.", Value(2.0));
  vf_assert(At(v, "c").FindKey("") != nullptr, "a trailing dot ends in an empty key");
  v.SetPath(".d", Value(3.0));
  vf_assert(At(v, "").FindKey("d") != nullptr, "a leading dot starts with an empty key");
  v.SetPath("", Value(true));
  vf_assert(At(v, "").IsBool(), "the empty path is the empty key");
  vf_assert(v.FindPath("") != nullptr && AtPath(v, "").IsBool(), "FindPath of the empty path");
  vf_assert(v.FindPath("c.") != nullptr && v.FindPath("a..b") != nullptr && v.FindPath("a.b") == nullptr,
            "FindPath splits at every dot");
  vf_assert(v.FindPath("c.").get() == At(v, "c").FindKey("").get(), "a trailing dot is followed by the empty key");
  vf_assert(v.FindPath("a..b").get() == At(At(v, "a"), "").FindKey("b").get(), "two dots enclose the empty key");
  vf_assert(v.FindPath("").get() == v.FindKey("").get(), "the empty path finds the empty key");
}

void V06_path_odd_dots_missing() {
  Value v(Type::kObject);
  vf_no_abort("looking for an empty segment aborts");
  vf_assert(v.FindPath("") == nullptr, "the empty path finds nothing in an empty object");
  const auto p = v.SetPath("a.b.c", Value(1.0));
  vf_assert(v.FindPath("") == nullptr && v.FindPath("a.") == nullptr && v.FindPath("a.b.") == nullptr, "an empty last segment is no entry of that name's object");
  vf_assert(v.FindPath(".a") == nullptr && v.FindPath("a..b") == nullptr && v.FindPath(".a.b.c") == nullptr && v.FindPath("a.b.c.") == nullptr, "empty segments are not skipped");
  vf_assert(v.FindPath(".") == nullptr && v.FindPath("..") == nullptr && v.FindPath("a..") == nullptr, "dots alone find nothing");
  v.SetPath("a.b.", Value(2.0));
  v.SetPath("a..c", Value(3.0));
  vf_assert(v.FindPath("a.b.c").get() == p.get() && p->GetDouble() == 1.0, "setting a path with empty segments touches no other entry");
  vf_assert(AtPath(v, "a.b.").GetDouble() == 2.0 && AtPath(v, "a..c").GetDouble() == 3.0, "and is found under that path");
  vf_assert(At(At(v, "a"), "b").GetObject().size() == 2 && At(v, "a").GetObject().size() == 2 && v.GetObject().size() == 1, "as one entry of its own");
}

void V06_path_long() {
  Value v(Type::kObject);
  const auto p = v.SetPath("a.b.c.d.e.f", Value(1.0));
  const auto q = v.SetPath("a.b.c.d.e.g", Value(2.0));
  vf_assert(At(At(At(At(At(v, "a"), "b"), "c"), "d"), "e").GetObject().size() == 2, "both entries are in the innermost object");
  vf_assert(v.FindPath("a.b.c.d.e.f").get() == p.get() && v.FindPath("a.b.c.d.e.g").get() == q.get(), "each is found under its path");
  v.SetPath("a.b.c", Value(3.0));
  vf_assert(v.FindPath("a.b.c.d.e.f") == nullptr && v.FindPath("a.b.c.d") == nullptr && AtPath(v, "a.b.c").GetDouble() == 3.0, "what was below a replaced object is gone");
  v.SetPath("a.b.c.d", Value(4.0));
  vf_assert(v.FindPath("a.b.c.d.e") == nullptr && AtPath(v, "a.b.c").GetObject().size() == 1, "and does not come back");
}

void V06_set_path_keeps_objects() {
  Value v(Type::kObject);
  v.SetPath("a.x", Value(1.0));
  v.SetPath("a.y", Value(2.0));
  vf_assert(v.FindPath("a.x") != nullptr && AtPath(v, "a.x").GetDouble() == 1.0,
            "an existing intermediate object is kept");
  vf_assert(v.FindPath("a.y") != nullptr && AtPath(v, "a.y").GetDouble() == 2.0, "and extended");
}

void V06_set_path_replaces() {
  In in;
  Any(in, 1);
  if (in.t == 5)
    return;
  Value v(Type::kObject);
  v.SetKey("a", Make(in));
  v.SetPath("a.b", Value(2.0));
  vf_assert(At(v, "a").IsObject(), "an intermediate value of another type is replaced by an object");
  vf_assert(v.FindPath("a.b") != nullptr && AtPath(v, "a.b").GetDouble() == 2.0, "holding the value");
}

void V06_find_path_needs_objects() {
  In in;
  Any(in, 1);
  if (in.t == 5)
    return;
  Value v(Type::kObject);
  v.SetKey("a", Make(in));
  vf_no_abort("FindPath through a value that is no object does not abort");
  vf_assert(v.FindPath("a.b") == nullptr, "FindPath returns nothing through a value that is no object");
  vf_may_abort();
  vf_assert(Holds(At(v, "a"), in), "and leaves it alone");
}

void V06_find_path_dotted_key() {
  Value v(Type::kObject);
  v.SetKey("a.b", Value(1.0));
  v.SetKey("c", Value(Type::kObject));
  At(v, "c").SetKey("d.e", Value(1.0));
  vf_assert(v.FindPath("a.b") == nullptr, "a key with a dot is not reached by a path");
  vf_assert(v.FindPath("c.d.e") == nullptr, "nor deeper down");
  v.SetPath("a.b", Value(true));
  vf_assert(AtPath(v, "a.b").IsBool() && At(v, "a.b").IsNumber(), "nor changed by one");
}

void V06_find_path_missing() {
  Value v(Type::kObject);
  vf_no_abort("a missing segment does not abort");
  vf_assert(v.FindPath("a.b") == nullptr, "FindPath returns nothing for a missing segment");
  vf_assert(v.GetObject().empty(), "and creates nothing");
}

void V06_set_path_any_object() {
  Value::Object obj;
  vf_fill(&obj, 7);
  Value v(std::move(obj));
  const std::string o = vf_string();
  const bool had = v.FindKey(o) != nullptr;
  v.SetPath("a.b", Value(2.0));
  vf_assert(v.FindPath("a.b") != nullptr && AtPath(v, "a.b").IsNumber(), "SetPath stores in any object");
  if (o != "a")
    vf_assert((v.FindKey(o) != nullptr) == had, "SetPath touches no other entry");
}

// With characters that end a C string.
void V05_string_nul() {
  const Value a{std::string("x\0a", 3)}, b{std::string("x\0b", 3)}, c{std::string("x")};
  vf_assert(a != b && b != c && c != a && a == a, "strings that differ after a NUL are unequal");
  vf_assert(a < b && c < a && c < b, "strings are ordered by all of their characters");
  vf_assert(!(b < a) && !(a < c) && !(b < c), "strings are ordered by all of their characters, in one way only");
}
