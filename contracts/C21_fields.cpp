// Fields keep, force, pass on and persist their values.
// @sources: src/Xsmp/Field.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/Component.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/EventSource.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/EventProvider.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: .*connect.*|.*failure.* | arrays of two items, structures of two fields, at most two connected fields
#include "collection_common.h"
#include "field_common.h"
#include "storage_common.h"
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidTarget.h>
#include <Xsmp/Component.h>
#include <Xsmp/FallibleModel.h>
using Smp::AnySimple;
using Smp::ViewKind;
namespace {
using I32 = Xsmp::Field<Smp::Int32>;
using F64 = Xsmp::Field<Smp::Float64>;
AnySimple any32(int32_t v) { return {K::PTK_Int32, v}; }
int32_t i32(const char *n) { return spec::nondet<int32_t>(n); }

struct Model : Xsmp::Component, Xsmp::FallibleModel {
  using Component::Component;
};
ViewKind anyView() {
  auto v = i32("view");
  REQUIRES(v >= 0 && v <= int32_t(ViewKind::VK_All));
  return static_cast<ViewKind>(v);
}
template <class F> void identity(F &f, ViewKind view, const Smp::Publication::IType *type, bool state, bool in, bool out) {
  ENSURES(text_is(f.GetName(), "f") && text_is(f.GetDescription(), "a field") && f.GetParent() == nullptr);
  ENSURES(f.GetView() == view && f.GetType() == type);
  ENSURES(f.IsState() == state && f.IsInput() == in && f.IsOutput() == out);
}
} // namespace
// ---------------------------------------------------------------- simple fields
namespace {
template <class F> constexpr bool isForcible = std::is_base_of_v<Smp::IForcibleField, F>;
template <class F> constexpr bool isFailure = std::is_base_of_v<Smp::IFailure, F>;
template <class F> void simple(bool state, bool in, bool out) {
  Types t;
  auto view = anyView();
  int32_t v = i32("v");
  F f(&t, Types::uuid(1), "f", "a field", nullptr, view, v);
  identity(f, view, &t.i32, state, in, out);
  ENSURES(f.GetPrimitiveTypeKind() == K::PTK_Int32);
  ENSURES(f == v && *f == v && static_cast<Smp::Int32>(f) == v);
  auto a = f.GetValue();
  ENSURES(a.GetType() == K::PTK_Int32 && static_cast<int32_t>(a) == v);
  // every way to set it
  int32_t w = i32("w");
  int op = below(13, "op");
  if (op == 0) {
    f = w;
    v = w;
  } else if (op == 1) {
    static_cast<Smp::ISimpleField &>(f).SetValue(any32(w));
    v = w;
  } else if (op == 2) {
    REQUIRES(v != INT32_MAX);
    ++f;
    ++v;
  } else if (op == 3) {
    REQUIRES(v != INT32_MIN);
    --f;
    --v;
  } else if (op == 4) {
    REQUIRES(int64_t(v) + w == v + int64_t(w) && int64_t(v) + w >= INT32_MIN && int64_t(v) + w <= INT32_MAX);
    f += w;
    v += w;
  } else if (op == 5) {
    REQUIRES(int64_t(v) - w >= INT32_MIN && int64_t(v) - w <= INT32_MAX);
    f -= w;
    v -= w;
  } else if (op == 6) {
    REQUIRES(v >= -1000 && v <= 1000 && w >= -1000 && w <= 1000);
    f *= w;
    v *= w;
  } else if (op == 7) {
    REQUIRES(w == 7);
    f /= w;
    v /= w;
  } else if (op == 8) {
    REQUIRES(w == 7);
    f %= w;
    v %= w;
  } else if (op == 9) {
    f &= w;
    v &= w;
  } else if (op == 10) {
    f |= w;
    v |= w;
  } else if (op == 11) {
    f ^= w;
    v ^= w;
  } else {
    REQUIRES(v >= 0 && v < 1000 && w >= 0 && w < 8);
    if (__spec_choose("left")) {
      f <<= w;
      v <<= w;
    } else {
      f >>= w;
      v >>= w;
    }
  }
  ENSURES(f == v && static_cast<int32_t>(f.GetValue()) == v);
}
} // namespace
CONTRACT(C21, simple_plain) { simple<I32>(true, false, false); }
CONTRACT(C21, simple_input) { simple<I32::input>(true, true, false); }
CONTRACT(C21, simple_output) { simple<I32::output>(true, false, true); }
CONTRACT(C21, simple_transient) { simple<I32::transient>(false, false, false); }
CONTRACT(C21, simple_in_out) { simple<I32::input::output>(true, true, true); }
CONTRACT(C21, simple_forcible) { simple<I32::forcible>(true, false, false); }
CONTRACT(C21, simple_forcible_input_transient) { simple<I32::forcible::input::transient>(false, true, false); }
// a value of another kind is refused
CONTRACT(C21, simple_other_kind) {
  Types t;
  int32_t v = i32("v");
  I32 f(&t, Types::uuid(1), "f", "", nullptr, ViewKind::VK_None, v);
  int thrown = 0;
  try {
    static_cast<Smp::ISimpleField &>(f).SetValue({K::PTK_Float64, 1.0});
  } catch (const Smp::InvalidAnyType &e) {
    ++thrown;
  }
  ENSURES(thrown == 1 && f == v);
}
CONTRACT(C21, unknown_type) {
  Types t;
  int n = below(3, "n");
  int thrown = 0;
  try {
    if (n == 0)
      I32(&t, Types::uuid(99), "f");
    else if (n == 1) // an array field needs an array type
      Xsmp::Field<Xsmp::Array<Smp::Int32, 2>>(&t, Types::uuid(1), "f");
    else
      Xsmp::Field<Xsmp::Array<Smp::Int32, 2, Xsmp::Annotation::simpleArray>>(&t, Types::uuid(1), "f");
  } catch (const Smp::InvalidFieldType &) {
    ++thrown;
  }
  ENSURES(thrown == 1);
}
// ---------------------------------------------------------------- forcing
CONTRACT(C21, forcible) {
  Types t;
  int32_t v = i32("v");
  I32::forcible f(&t, Types::uuid(1), "f", "", nullptr, ViewKind::VK_None, v);
  ENSURES(!f.IsForced());
  bool forced = false;
  auto &s = static_cast<Smp::IForcibleField &>(f);
  for (int i = 0; i < 2; ++i) {
    int op = below(6, "op");
    int32_t w = i32("w");
    if (op == 0) {
      s.Force(any32(w));
      v = w;
      forced = true;
    } else if (op == 1) {
      f.Force(w);
      v = w;
      forced = true;
    } else if (op == 2) {
      s.Unforce();
      forced = false;
    } else if (op == 3) {
      s.Freeze();
      forced = true;
    } else {
      if (op == 4)
        f = w;
      else
        s.SetValue(any32(w));
      if (!forced)
        v = w;
    }
    ENSURES(s.IsForced() == forced);
    ENSURES(f == v && static_cast<int32_t>(s.GetValue()) == v);
  }
}
// ---------------------------------------------------------------- failures
CONTRACT(C21, failure) {
  Types t;
  Model m("model");
  int32_t v = i32("v");
  I32::failure f(&t, Types::uuid(1), "f", "", &m, ViewKind::VK_None, v);
  I32::failure g(&t, Types::uuid(1), "g", "", &m, ViewKind::VK_None, v);
  ENSURES(m.GetFailures()->size() == 2 && m.GetFailure("f") == &f && m.GetFailure("g") == &g);
  ENSURES(!m.GetFailure("h"));
  bool ff = false, gf = false;
  for (int i = 0; i < 3; ++i) {
    ENSURES(f.IsFailed() == ff && g.IsFailed() == gf && m.IsFailed() == (ff || gf));
    int op = below(4, "op");
    if (op == 0) {
      f.Fail();
      ff = true;
    } else if (op == 1) {
      f.Unfail();
      ff = false;
    } else if (op == 2) {
      g.Fail();
      gf = true;
    } else {
      g.Unfail();
      gf = false;
    }
  }
  ENSURES(f.IsFailed() == ff && g.IsFailed() == gf && m.IsFailed() == (ff || gf));
  ENSURES(f == v && g == v);
}
// ---------------------------------------------------------------- connections of simple fields
CONTRACT(C21, connect_simple) {
  Types t;
  int32_t v = i32("v"), a = i32("a"), b = i32("b");
  I32::output o(&t, Types::uuid(1), "o", "", nullptr, ViewKind::VK_None, v);
  I32::input x(&t, Types::uuid(1), "x", "", nullptr, ViewKind::VK_None, a);
  I32::input::forcible y(&t, Types::uuid(1), "y", "", nullptr, ViewKind::VK_None, b);
  bool forced = __spec_choose("forced");
  if (forced)
    y.Freeze();
  bool cx = __spec_choose("connect x"), cy = __spec_choose("connect y");
  if (cx)
    o.Connect(&x);
  if (cy)
    o.Connect(&y);
  int32_t ex = cx ? v : a, ey = cy && !forced ? v : b;
  ENSURES(x == ex && y == ey);
  ENSURES(o.GetInputFields()->size() == size_t(cx + cy));
  int32_t w = i32("w");
  if (__spec_choose("assign")) {
    if (__spec_choose("overwritten")) { // an input may have any value of its own
      x = ex = i32("own");
      if (!forced)
        y = ey = i32("own");
    }
    o = w;
    ENSURES(o == w);
    if (cx)
      ex = w;
    if (cy && !forced)
      ey = w;
  } else {
    x = w; // the input is overwritten, until the output is pushed
    ENSURES(x == w);
    o.Push();
    ex = cx ? v : w;
  }
  ENSURES(x == ex && y == ey);
  if (__spec_choose("disconnect"))
    o.Disconnect(&x);
  else
    cx = cx; // unchanged
  int32_t u = i32("u");
  bool still = cx && o.GetInputFields()->size() == size_t(1 + cy);
  o = u;
  if (still)
    ex = u;
  if (cy && !forced)
    ey = u;
  ENSURES(x == ex && y == ey);
}
CONTRACT(C21, connect_disconnected) { // after Disconnect nothing arrives
  Types t;
  I32::output o(&t, Types::uuid(1), "o");
  I32::input x(&t, Types::uuid(1), "x"), y(&t, Types::uuid(1), "y");
  o.Connect(&x);
  o.Connect(&y);
  bool first = __spec_choose("first");
  o.Disconnect(first ? &x : &y);
  ENSURES(o.GetInputFields()->size() == 1 && o.GetInputFields()->at(size_t(0)) == (first ? &y : &x));
  int32_t u = i32("u");
  o = u;
  ENSURES((first ? x : y) == 0 && (first ? y : x) == u);
  o.Connect(first ? &x : &y);
  ENSURES(x == u && y == u);
}
CONTRACT(C21, connect_refused) {
  Types t;
  int32_t v = i32("v");
  Xsmp::Field<Smp::Int32>::input::output o(&t, Types::uuid(1), "o", "", nullptr, ViewKind::VK_None, v);
  I32 plain(&t, Types::uuid(1), "plain");
  F64::input other(&t, Types::uuid(2), "other");
  I32::input x(&t, Types::uuid(1), "x");
  Xsmp::Field<Xsmp::Array<Smp::Int32, 2>>::input array(&t, Types::uuid(3), "array");
  int n = below(5, "n");
  Smp::IField *target = n == 0 ? static_cast<Smp::IField *>(&plain) : n == 1 ? static_cast<Smp::IField *>(&other) : n == 2 ? static_cast<Smp::IField *>(&o) : n == 3 ? static_cast<Smp::IField *>(&array) : &x;
  int invalid = 0, already = 0;
  if (n == 4)
    o.Connect(&x);
  try {
    o.Connect(target);
  } catch (const Smp::InvalidTarget &e) {
    ++invalid;
    ENSURES(e.GetSender() == &o);
  } catch (const Smp::FieldAlreadyConnected &e) {
    ++already;
    ENSURES(e.GetSender() == &o);
  }
  ENSURES(invalid == (n < 4) && already == (n == 4));
  ENSURES(o.GetInputFields()->size() == (n == 4 ? 1u : 0u));
  ENSURES(plain == 0 && other == 0.0 && array[0] == 0 && array[1] == 0 && o == v);
}
// ---------------------------------------------------------------- arrays
namespace {
using Arr = Xsmp::Array<Smp::Int32, 2>;
using SArr = Xsmp::Array<Smp::Int32, 2, Xsmp::Annotation::simpleArray>;
using SArrF = Xsmp::Array<Smp::Float64, 2, Xsmp::Annotation::simpleArray>;
} // namespace
CONTRACT(C21, array) {
  Types t;
  auto view = anyView();
  int32_t a = i32("a"), b = i32("b");
  Xsmp::Field<Arr> f(&t, Types::uuid(3), "f", "a field", nullptr, view, Arr{{a, b}});
  identity(f, view, &t.ai32, true, false, false);
  ENSURES(f.GetSize() == 2 && f.size() == 2);
  auto i = spec::nondet<uint64_t>("i");
  int thrown = 0;
  try {
    auto *item = f.GetItem(i);
    ENSURES(i < 2 && item == static_cast<Smp::IField *>(&f[i]));
    ENSURES(text_is(item->GetName(), i ? "[1]" : "[0]") && item->GetParent() == &f && item->GetView() == view);
    ENSURES(f[i] == (i ? b : a));
    int32_t w = i32("w");
    dynamic_cast<Smp::ISimpleField *>(item)->SetValue(any32(w));
    ENSURES(f[i] == w && f[1 - i] == (i ? a : b));
  } catch (const Smp::InvalidArrayIndex &e) {
    ++thrown;
    ENSURES(e.GetSender() == &f && e.GetInvalidIndex() == static_cast<decltype(e.GetInvalidIndex())>(i));
  }
  ENSURES(thrown == (i >= 2));
  int32_t c = i32("c"), d = i32("d");
  f = Arr{{c, d}};
  Arr back = f;
  ENSURES(back[0] == c && back[1] == d && f[0] == c && f[1] == d);
}
CONTRACT(C21, simple_array) {
  Types t;
  auto view = anyView();
  int32_t a = i32("a"), b = i32("b");
  Xsmp::Field<SArr> f(&t, Types::uuid(3), "f", "a field", nullptr, view, SArr{{a, b}});
  identity(f, view, &t.ai32, true, false, false);
  ENSURES(f.GetSize() == 2);
  auto i = spec::nondet<uint64_t>("i");
  int thrown = 0;
  int32_t w = i32("w");
  bool wrong = __spec_choose("wrong kind");
  try {
    auto v = f.GetValue(i);
    ENSURES(i < 2 && v.GetType() == K::PTK_Int32 && static_cast<int32_t>(v) == (i ? b : a));
  } catch (const Smp::InvalidArrayIndex &e) {
    ++thrown;
    ENSURES(e.GetSender() == &f);
  }
  ENSURES(thrown == (i >= 2));
  try {
    f.SetValue(i, wrong ? AnySimple{K::PTK_UInt32, uint32_t(w)} : any32(w));
    ENSURES(i < 2 && !wrong);
    (i ? b : a) = w;
  } catch (const Smp::InvalidArrayIndex &) {
    ENSURES(i >= 2);
  } catch (const Smp::InvalidFieldValue &) {
    ENSURES(i < 2 && wrong);
  }
  ENSURES(f[0] == a && f[1] == b);
}
CONTRACT(C21, simple_array_all) {
  Types t;
  int32_t a = i32("a"), b = i32("b");
  Xsmp::Field<SArr> f(&t, Types::uuid(3), "f", "", nullptr, ViewKind::VK_None, SArr{{a, b}});
  auto length = spec::nondet<uint64_t>("length");
  AnySimple v[2];
  int thrown = 0;
  try {
    f.GetValues(length, v);
    ENSURES(length == 2);
    ENSURES(v[0].GetType() == K::PTK_Int32 && static_cast<int32_t>(v[0]) == a);
    ENSURES(v[1].GetType() == K::PTK_Int32 && static_cast<int32_t>(v[1]) == b);
  } catch (const Smp::InvalidArraySize &e) {
    ++thrown;
    ENSURES(e.GetSender() == &f && length != 2);
  }
  ENSURES(thrown == (length != 2));
  int32_t c = i32("c"), d = i32("d");
  int wrong = below(3, "wrong");
  v[0] = wrong == 1 ? AnySimple{K::PTK_Float64, 1.0} : any32(c);
  v[1] = wrong == 2 ? AnySimple{K::PTK_Float64, 1.0} : any32(d);
  try {
    f.SetValues(length, v);
    ENSURES(length == 2 && wrong == 0);
    ENSURES(f[0] == c && f[1] == d);
  } catch (const Smp::InvalidArraySize &) {
    ENSURES(length != 2);
    ENSURES(f[0] == a && f[1] == b);
  } catch (const Smp::InvalidArrayValue &) {
    ENSURES(length == 2 && wrong != 0);
    ENSURES(f[size_t(wrong - 1)] == (wrong == 1 ? a : b));
  }
}
CONTRACT(C21, connect_simple_array) {
  Types t;
  int32_t a = i32("a"), b = i32("b");
  Xsmp::Field<SArr>::output o(&t, Types::uuid(3), "o", "", nullptr, ViewKind::VK_None, SArr{{a, b}});
  Xsmp::Field<SArr>::input x(&t, Types::uuid(3), "x"), y(&t, Types::uuid(3), "y");
  Xsmp::Field<SArrF>::input other(&t, Types::uuid(4), "other");
  int invalid = 0, already = 0;
  try {
    o.Connect(&other);
  } catch (const Smp::InvalidTarget &) {
    ++invalid;
  }
  ENSURES(invalid == 1 && o.GetInputFields()->size() == 0);
  o.Connect(&x);
  ENSURES(x[0] == a && x[1] == b);
  try {
    o.Connect(&x);
  } catch (const Smp::FieldAlreadyConnected &) {
    ++already;
  }
  ENSURES(already == 1);
  o.Connect(&y);
  int32_t w = i32("w");
  size_t i = __spec_choose("i");
  if (__spec_choose("overwritten")) {
    x[i] = i32("own");
    y[i] = i32("own");
  }
  o[i] = w;
  (i ? b : a) = w;
  ENSURES(x[0] == a && x[1] == b && y[0] == a && y[1] == b);
  o.Disconnect(&x);
  int32_t u = i32("u");
  o.SetValue(i, any32(u));
  o.Push();
  ENSURES(x[0] == a && x[1] == b);
  ENSURES(y[i] == u && y[1 - i] == (i ? a : b));
}
CONTRACT(C21, connect_array) {
  Types t;
  int32_t a = i32("a"), b = i32("b");
  Xsmp::Field<Arr>::output o(&t, Types::uuid(3), "o", "", nullptr, ViewKind::VK_None, Arr{{a, b}});
  Xsmp::Field<Arr>::input x(&t, Types::uuid(3), "x"), y(&t, Types::uuid(3), "y");
  I32::input other(&t, Types::uuid(1), "other");
  int invalid = 0, already = 0;
  try {
    o.Connect(&other);
  } catch (const Smp::InvalidTarget &) {
    ++invalid;
  }
  ENSURES(invalid == 1 && o.GetInputFields()->size() == 0);
  o.Connect(&x);
  ENSURES(x[0] == a && x[1] == b);
  try {
    o.Connect(&x);
  } catch (const Smp::FieldAlreadyConnected &) {
    ++already;
  }
  ENSURES(already == 1);
  o.Connect(&y);
  int32_t w = i32("w");
  size_t i = __spec_choose("i");
  if (__spec_choose("overwritten")) {
    x[i] = i32("own");
    y[i] = i32("own");
  }
  o[i] = w;
  (i ? b : a) = w;
  ENSURES(x[0] == a && x[1] == b && y[0] == a && y[1] == b);
  o.Disconnect(&x);
  int32_t u = i32("u");
  o[i] = u;
  o.Push();
  ENSURES(x[0] == a && x[1] == b);
  ENSURES(y[i] == u && y[1 - i] == (i ? a : b));
}
// ---------------------------------------------------------------- structures
namespace {
struct Point {
  Smp::Int32 x;
  Smp::Float64 y;
  template <class B> struct _Field : B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name, Smp::String8 d = "",
           Smp::IObject *p = nullptr, ViewKind v = ViewKind::VK_None, const Point &value = {})
        : B(r, u, name, d, p, v), x{r, Types::uuid(1), "x", "", this, v, value.x}, y{r, Types::uuid(2), "y", "", this, v, value.y} {}
    typename B::template Field<Smp::Int32> x;
    typename B::template Field<Smp::Float64> y;
  };
};
} // namespace
CONTRACT(C21, structure) {
  Types t;
  auto view = anyView();
  int32_t a = i32("a");
  Xsmp::Field<Point> f(&t, Types::uuid(5), "f", "a field", nullptr, view, Point{a, 1.5});
  identity(f, view, &t.st, true, false, false);
  auto &s = static_cast<Smp::IStructureField &>(f);
  ENSURES(s.GetFields()->size() == 2 && s.GetFields()->at(size_t(0)) == &f.x && s.GetFields()->at(size_t(1)) == &f.y);
  ENSURES(s.GetField("x") == &f.x && s.GetField("y") == &f.y && s.GetField("z") == nullptr);
  ENSURES(f.x == a && f.y == 1.5 && f.x.GetParent() == &f && f.y.GetView() == view);
}
CONTRACT(C21, connect_structure) {
  Types t;
  int32_t a = i32("a");
  Xsmp::Field<Point>::output o(&t, Types::uuid(5), "o", "", nullptr, ViewKind::VK_None, Point{a, 1.5});
  Xsmp::Field<Point>::input p(&t, Types::uuid(5), "p"), q(&t, Types::uuid(5), "q");
  Xsmp::Field<Arr>::input other(&t, Types::uuid(3), "other");
  int invalid = 0, already = 0;
  try {
    o.Connect(&other);
  } catch (const Smp::InvalidTarget &) {
    ++invalid;
  }
  ENSURES(invalid == 1);
  o.Connect(&p);
  ENSURES(p.x == a && p.y == 1.5);
  try {
    o.Connect(&p);
  } catch (const Smp::FieldAlreadyConnected &) {
    ++already;
  }
  ENSURES(already == 1);
  o.Connect(&q);
  int32_t w = i32("w");
  if (__spec_choose("x")) {
    if (__spec_choose("overwritten")) {
      p.x = i32("own");
      q.x = i32("own");
    }
    o.x = w;
    ENSURES(p.x == w && q.x == w && p.y == 1.5 && q.y == 1.5);
  } else {
    o.y = 2.5;
    ENSURES(p.x == a && q.x == a && p.y == 2.5 && q.y == 2.5);
  }
  int32_t before = p.x;
  o.Disconnect(&p);
  int32_t u = i32("u");
  o.x = u;
  o.Push();
  ENSURES(p.x == before && q.x == u);
}
// ---------------------------------------------------------------- state vector
namespace {
// stores one field and restores another with any content: the content is the same
template <class F, class Set, class Same> void persists(Set set, Same same, bool state = true) {
  Types t;
  int uuid = std::is_base_of_v<Smp::IStructureField, F> ? 5 : std::is_base_of_v<Smp::ISimpleField, F> ? 1 : 3;
  F f(&t, Types::uuid(uuid), "f"), g(&t, Types::uuid(uuid), "g");
  set(f);
  set(g);
  StateVector v;
  Writer w(v);
  Reader r(v);
  f.Store(&w);
  if (!state)
    ENSURES(v.size == 0);
  g.Restore(&r);
  ENSURES(v.pos == v.size);
  if (state)
    same(f, g);
}
auto setSimple = [](auto &f) { f = i32("v"); };
auto sameSimple = [](auto &f, auto &g) { ENSURES(int32_t(f) == int32_t(g)); };
} // namespace
CONTRACT(C21, persist_simple) { persists<I32>(setSimple, sameSimple); }
CONTRACT(C21, persist_transient) {
  Types t;
  int32_t a = i32("a"), b = i32("b");
  I32::transient f(&t, Types::uuid(1), "f", "", nullptr, ViewKind::VK_None, a);
  StateVector v;
  Writer w(v);
  Reader r(v);
  f.Store(&w);
  f = b;
  f.Restore(&r);
  ENSURES(v.size == 0 && f == b);
}
CONTRACT(C21, persist_forcible) {
  persists<I32::forcible>(
      [](auto &f) {
        if (__spec_choose("force"))
          f.Force(i32("v"));
        else
          f = i32("v");
      },
      [](auto &f, auto &g) { ENSURES(f.IsForced() == g.IsForced() && int32_t(f) == int32_t(g)); });
}
CONTRACT(C21, persist_failure) {
  persists<I32::failure>(
      [](auto &f) {
        f = i32("v");
        if (__spec_choose("fail"))
          f.Fail();
      },
      [](auto &f, auto &g) { ENSURES(f.IsFailed() == g.IsFailed() && int32_t(f) == int32_t(g)); });
}
CONTRACT(C21, persist_array) {
  persists<Xsmp::Field<Arr>>([](auto &f) { f = Arr{{i32("a"), i32("b")}}; },
                             [](auto &f, auto &g) { ENSURES(int32_t(f[0]) == g[0] && int32_t(f[1]) == g[1]); });
}
CONTRACT(C21, persist_simple_array) {
  persists<Xsmp::Field<SArr>>(
      [](auto &f) {
        f[0] = i32("a");
        f[1] = i32("b");
      },
      [](auto &f, auto &g) { ENSURES(f[0] == g[0] && f[1] == g[1]); });
}
CONTRACT(C21, persist_structure) {
  persists<Xsmp::Field<Point>>(
      [](auto &f) {
        f.x = i32("a");
        f.y = __spec_choose("b") ? 1.5 : -2.25;
      },
      [](auto &f, auto &g) { ENSURES(int32_t(f.x) == g.x && double(f.y) == double(g.y)); });
}
