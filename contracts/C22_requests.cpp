// Requests take the values of the types of their parameters, and operations and
// properties are invoked by requests of their own.
// @sources: src/Xsmp/Request.cpp src/Xsmp/Publication/Request.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Field.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/Component.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Smp/Uuid.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Xsmp/EventSource.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/EventProvider.cpp
// @flags: -I$V/smp -I$R/src
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: .*_request|.*invocation|.*operation_published|.*refused_parameter|.*parameters_and_fields|.*composed.* | at most two parameters and a return value, arrays of two items
#include "collection_common.h"
#include "field_common.h"
#include <Smp/DuplicateName.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Publication/Operation.h>
#include <Xsmp/Publication/Property.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Request.h>
using namespace Xsmp::Publication;
using Smp::AnySimple;
using Direction = Smp::Publication::ParameterDirectionKind;
namespace {
using Object = Named<Smp::MockIObject>;
// any value of any kind but text
AnySimple anyValue(const char *n) {
  AnySimple v;
  v.type = K(below(int(K::PTK_String8), n));
  if (v.type == K::PTK_Bool)
    v.value.boolValue = spec::nondet<bool>(n);
  else
    __spec_nondet(&v.value, 8, n);
  return v;
}
AnySimple text(const char *p) {
  AnySimple v;
  v.SetValue(K::PTK_String8, p);
  return v;
}
AnySimple any32(int32_t v) { return {K::PTK_Int32, v}; }
int32_t i32(const char *n) { return spec::nondet<int32_t>(n); }
int64_t i64(const char *n) { return spec::nondet<int64_t>(n); }
// the integer in it
int64_t integer(const AnySimple &v) {
  switch (v.type) {
  case K::PTK_Int8: return v.value.int8Value;
  case K::PTK_UInt8: return v.value.uInt8Value;
  case K::PTK_Int16: return v.value.int16Value;
  case K::PTK_UInt16: return v.value.uInt16Value;
  case K::PTK_Int32: return v.value.int32Value;
  case K::PTK_UInt32: return v.value.uInt32Value;
  default: return v.value.int64Value;
  }
}
// accepted, or refused with an exception telling the two kinds
enum Outcome : int { Accepted, Refused, WrongKind };
Outcome valid(const Smp::Publication::IType &t, const AnySimple &v) {
  Object sender;
  try {
    return Request::isValid(&sender, &t, v) ? Accepted : Refused;
  } catch (const Smp::InvalidAnyType &e) {
    ENSURES(e.GetExpectedType() == t.GetPrimitiveTypeKind() && e.GetInvalidType() == v.type && e.GetSender() == &sender);
  }
  return WrongKind;
}
} // namespace
// ---------------------------------------------------------------- values of types
CONTRACT(C22, integer_values) {
  K kind = K(int(K::PTK_Int8) + below(8, "kind"));
  int64_t lo = i64("minimum"), hi = i64("maximum");
  IntegerType t("t", "", nullptr, Types::uuid(1), lo, hi, "", kind);
  auto v = anyValue("value");
  bool above = kind == K::PTK_UInt64 && v.value.uInt64Value > uint64_t(INT64_MAX);
  bool in = !above && integer(v) >= lo && integer(v) <= hi;
  ENSURES(valid(t, v) == (v.type != kind ? WrongKind : in ? Accepted : Refused));
}
CONTRACT(C22, float_values) {
  K kind = __spec_choose("double") ? K::PTK_Float64 : K::PTK_Float32;
  auto lo = spec::nondet<double>("minimum"), hi = spec::nondet<double>("maximum");
  bool minIn = spec::nondet<bool>("minimum inclusive"), maxIn = spec::nondet<bool>("maximum inclusive");
  FloatType t("t", "", nullptr, Types::uuid(1), lo, hi, minIn, maxIn, "", kind);
  auto v = anyValue("value");
  double d = kind == K::PTK_Float64 ? v.value.float64Value : double(v.value.float32Value);
  REQUIRES(v.type != kind || (d == d && lo == lo && hi == hi));
  bool in = (d > lo || (minIn && d == lo)) && (d < hi || (maxIn && d == hi));
  ENSURES(valid(t, v) == (v.type != kind ? WrongKind : in ? Accepted : Refused));
}
CONTRACT(C22, enumeration_values) {
  int size = below(4, "size");
  K kinds[] = {K::PTK_Int8, K::PTK_Int16, K::PTK_Int32, K::PTK_Int64};
  EnumerationType t("t", "", nullptr, Types::uuid(1), Smp::Int16(1 << size));
  ENSURES(t.GetPrimitiveTypeKind() == kinds[size]);
  int32_t a = i32("a literal"), b = i32("another literal");
  REQUIRES(a < b);
  t.AddLiteral("a", "", a);
  t.AddLiteral("b", "", b);
  auto v = anyValue("value");
  ENSURES(valid(t, v) == (v.type != kinds[size] ? WrongKind : integer(v) == a || integer(v) == b ? Accepted : Refused));
}
CONTRACT(C22, text_values) {
  int64_t length = i64("length");
  REQUIRES(length >= 0);
  StringType t("t", "", nullptr, Types::uuid(1), length);
  if (__spec_choose("null")) {
    ENSURES(valid(t, text(nullptr)) == Accepted);
  } else {
    auto s = spec::cstr("value");
    ENSURES(valid(t, text(s.p)) == (int64_t(s.len) <= length ? Accepted : Refused));
  }
  auto v = anyValue("other value");
  ENSURES(valid(t, v) == WrongKind);
}
CONTRACT(C22, primitive_values) {
  K kind = K(below(int(K::PTK_String8) + 1, "kind"));
  PrimitiveType t("t", "", nullptr, Types::uuid(1), kind);
  auto v = anyValue("value");
  ENSURES(valid(t, v) == (v.type == kind ? Accepted : WrongKind));
}
// ---------------------------------------------------------------- operations
namespace {
// 1: from -5 to 5, 2: at most three characters, 3: a structure, anything else: unknown
struct Registry : Smp::Publication::MockITypeRegistry {
  IntegerType number{"number", "", nullptr, Types::uuid(1), -5, 5, "", K::PTK_Int32};
  StringType word{"word", "", nullptr, Types::uuid(2), 3};
  StructureType structure{"structure", "", nullptr, Types::uuid(3)};
  Smp::Publication::IType *GetType(Smp::Uuid u) const override {
    auto *r = const_cast<Registry *>(this);
    switch (u.Data1) {
    case 1: return &r->number;
    case 2: return &r->word;
    case 3: return &r->structure;
    }
    return nullptr;
  }
  Smp::Publication::IType *type(int n) { return GetType(Types::uuid(n)); }
};
struct Owner : Named<Smp::MockIDynamicInvocation> {
  int invoked = 0;
  Smp::IRequest *request = nullptr;
  void (*body)(Smp::IRequest *) = nullptr;
  void Invoke(Smp::IRequest *r) override {
    ++invoked;
    request = r;
    if (body)
      body(r);
  }
};
struct Parameter {
  const char *name;
  int type;
  Direction direction;
};
struct Parameters {
  Parameter p[2];
  int n = below(3, "parameters");
  explicit Parameters(int types, bool directions = true) : p{{"a", 1, Direction::PDK_In}, {"b", 1, Direction::PDK_InOut}} {
    for (int i = 0; i < n; ++i) {
      p[i].type = 1 + below(types, "type");
      if (directions && __spec_choose("out"))
        p[i].direction = Direction::PDK_Out;
    }
  }
  Parameter &operator[](int i) { return p[i]; }
};
void isParameter(Smp::IParameter *p, const Parameter &x, Registry &r, Smp::IObject *parent) {
  ENSURES(p && text_is(p->GetName(), x.name) && p->GetType() == r.type(x.type) && p->GetDirection() == x.direction && p->GetParent() == parent);
}
} // namespace
CONTRACT(C22, operation_published) {
  Registry r;
  Owner owner;
  auto view = Smp::ViewKind(i32("view") & 3);
  Publication pub(&owner, &r);
  auto *publish = pub.PublishOperation("op", "an operation", view);
  auto *op = pub.GetOperations()->at("op");
  ENSURES(op && publish == dynamic_cast<Smp::Publication::IPublishOperation *>(op) && pub.GetOperations()->size() == 1);
  ENSURES(text_is(op->GetName(), "op") && text_is(op->GetDescription(), "an operation") && op->GetParent() == &owner && op->GetView() == view);
  Parameters p(1);
  p[1].type = 3;
  int n = p.n;
  Parameter ret{"r", 2, Direction::PDK_Return};
  bool returns = __spec_choose("returns"), first = returns && __spec_choose("return first");
  if (returns && first)
    publish->PublishParameter(ret.name, "", Types::uuid(ret.type), ret.direction);
  for (int i = 0; i < n; ++i)
    publish->PublishParameter(p[i].name, "a parameter", Types::uuid(p[i].type), p[i].direction);
  if (returns && !first)
    publish->PublishParameter(ret.name, "", Types::uuid(ret.type), ret.direction);
  // a name that is used, a name that is none, a type that is none
  int what = below(5, "bad");
  const char *bad = what == 0 ? "a" : what == 1 ? "r" : what == 2 ? "1" : what == 3 ? nullptr : "ok";
  auto as = __spec_choose("as return") ? Direction::PDK_Return : Direction::PDK_In;
  bool duplicate = (what == 0 && n > 0) || (what == 1 && returns), name = what == 2 || what == 3, unknown = what == 4;
  if (duplicate || name || unknown) {
    int dup = 0, inv = 0, reg = 0, other = 0;
    try {
      publish->PublishParameter(bad, "", Types::uuid(unknown ? 9 : 1), as);
    } catch (const Smp::DuplicateName &) {
      ++dup;
    } catch (const Smp::InvalidObjectName &) {
      ++inv;
    } catch (const Smp::Publication::TypeNotRegistered &e) {
      ENSURES(e.GetUuid() == Types::uuid(9));
      ++reg;
    } catch (const Smp::Exception &) {
      ++other;
    }
    bool again = returns && as == Direction::PDK_Return && !unknown; // a second return value
    ENSURES(other == again && dup == (!again && duplicate) && inv == (!again && name) && reg == unknown);
  }
  ENSURES(op->GetParameters()->size() == size_t(n));
  for (int i = 0; i < n; ++i) {
    isParameter(op->GetParameters()->at(size_t(i)), p[i], r, op);
    ENSURES(op->GetParameter(p[i].name) == op->GetParameters()->at(size_t(i)));
    ENSURES(text_is(op->GetParameter(p[i].name)->GetDescription(), "a parameter"));
  }
  ENSURES((op->GetReturnParameter() != nullptr) == returns);
  if (returns)
    isParameter(op->GetReturnParameter(), ret, r, op);
  ENSURES(op->GetParameter("r") == op->GetReturnParameter());
  ENSURES(op->GetParameter("ok") == nullptr && op->GetParameter(nullptr) == nullptr);
  // published again: the same operation, from the start
  ENSURES(pub.PublishOperation("op", "again", Smp::ViewKind::VK_All) == publish);
  ENSURES(pub.GetOperations()->size() == 1 && pub.GetOperations()->at("op") == op);
  ENSURES(text_is(op->GetDescription(), "again") && op->GetView() == Smp::ViewKind::VK_All);
  ENSURES(op->GetParameters()->size() == 0 && op->GetReturnParameter() == nullptr);
}
CONTRACT(C22, operation_request) {
  size_t live = __spec_live();
  {
    Registry r;
    Owner owner;
    Publication pub(&owner, &r);
    auto *publish = pub.PublishOperation("op", "", Smp::ViewKind::VK_None);
    Parameters p(3, false);
    int n = p.n, ret = n ? 0 : below(4, "return type");
    bool simple = ret != 3;
    for (int i = 0; i < n; ++i) {
      publish->PublishParameter(p[i].name, "", Types::uuid(p[i].type), p[i].direction);
      simple = simple && p[i].type != 3;
    }
    if (ret)
      publish->PublishParameter("r", "", Types::uuid(ret), Direction::PDK_Return);
    auto *q = pub.CreateRequest("op");
    ENSURES((q != nullptr) == simple);
    if (!q)
      return;
    ENSURES(text_is(q->GetOperationName(), "op") && q->GetParameterCount() == n);
    ENSURES(q->GetParameterIndex("a") == (n > 0 ? 0 : -1) && q->GetParameterIndex("b") == (n > 1 ? 1 : -1));
    ENSURES(q->GetParameterIndex("r") == -1 && q->GetParameterIndex("") == -1 && q->GetParameterIndex(nullptr) == -1);
    for (int i = 0; i < n; ++i)
      ENSURES(q->GetParameterValue(i).GetType() == K::PTK_None);
    // a first value, which is good
    int32_t good = i32("good");
    REQUIRES(good >= -5 && good <= 5);
    auto fine = [&](int type) { return type == 1 ? any32(good) : text("abc"); };
    for (int i = 0; i < n; ++i)
      q->SetParameterValue(i, fine(p[i].type));
    // a second one, which may not
    int32_t at = i32("index");
    bool isText = __spec_choose("text");
    auto value = isText ? text(__spec_choose("long") ? "abcd" : "x") : any32(i32("value"));
    bool number = value.type == K::PTK_Int32;
    int index = 0, kind = 0, bad = 0;
    try {
      q->SetParameterValue(at, value);
    } catch (const Smp::InvalidParameterIndex &e) {
      ENSURES(text_is(e.GetOperationName(), "op") && e.GetParameterIndex() == at && e.GetParameterCount() == n);
      ++index;
    } catch (const Smp::InvalidAnyType &e) {
      ENSURES(e.GetInvalidType() == value.type && e.GetExpectedType() == (number ? K::PTK_String8 : K::PTK_Int32));
      ++kind;
    } catch (const Smp::InvalidParameterValue &e) {
      ENSURES(text_is(e.GetParameterName(), p[at].name) && e.GetValue() == value);
      ++bad;
    }
    bool inside = at >= 0 && at < n;
    ENSURES(index == !inside);
    if (inside) {
      ENSURES(kind == (number != (p[at].type == 1)));
      bool ok = number ? value.value.int32Value >= -5 && value.value.int32Value <= 5 : value.value.string8Value[0] == 'x';
      ENSURES(bad == (!kind && !ok));
    }
    for (int i = 0; i < n; ++i)
      ENSURES(q->GetParameterValue(i) == (i == at && !kind && !bad ? value : fine(p[i].type)));
    int outside = 0;
    try {
      (void)q->GetParameterValue(at);
    } catch (const Smp::InvalidParameterIndex &e) {
      ENSURES(e.GetParameterIndex() == at && e.GetParameterCount() == n);
      ++outside;
    }
    ENSURES(outside == !inside);
    // the return value
    int none = 0;
    try {
      ENSURES(q->GetReturnValue().GetType() == K::PTK_None && ret);
    } catch (const Smp::VoidOperation &e) {
      ENSURES(text_is(e.GetOperationName(), "op"));
      ++none;
    }
    ENSURES(none == (ret == 0));
    kind = bad = none = 0;
    try {
      q->SetReturnValue(value);
    } catch (const Smp::InvalidAnyType &) {
      ++kind;
    } catch (const Smp::InvalidReturnValue &e) {
      ENSURES(text_is(e.GetOperationName(), "op") && e.GetValue() == value);
      ++bad;
    } catch (const Smp::VoidOperation &) {
      ++none;
    }
    ENSURES(none == (ret == 0) && kind == (ret != 0 && number != (ret == 1)));
    if (ret) {
      bool ok = number ? value.value.int32Value >= -5 && value.value.int32Value <= 5 : value.value.string8Value[0] == 'x';
      ENSURES(bad == (!kind && !ok));
      if (kind || bad)
        ENSURES(q->GetReturnValue().GetType() == K::PTK_None);
      else
        ENSURES(q->GetReturnValue() == value);
      q->SetReturnValue(fine(ret));
      ENSURES(q->GetReturnValue() == fine(ret));
    }
    for (int i = 0; i < n; ++i)
      ENSURES(q->GetParameterValue(i) == (i == at && q->GetParameterValue(i) == value ? value : fine(p[i].type)));
    ENSURES(owner.invoked == 0);
    pub.DeleteRequest(q);
    pub.DeleteRequest(nullptr);
  }
  ENSURES(__spec_live() == live);
}
// a refused value is reported with the name of its parameter, whatever the order of the names
CONTRACT(C22, refused_parameter) {
  Registry r;
  Owner owner;
  Publication pub(&owner, &r);
  auto *publish = pub.PublishOperation("op", "", Smp::ViewKind::VK_None);
  const char *names[] = {"m", __spec_choose("order") ? "z" : "a", "k"};
  for (auto *n : names)
    publish->PublishParameter(n, "", Types::uuid(1), Direction::PDK_In);
  auto *q = pub.CreateRequest("op");
  int at = below(3, "index");
  ENSURES(q->GetParameterIndex(names[at]) == at);
  int bad = 0;
  try {
    q->SetParameterValue(at, any32(6));
  } catch (const Smp::InvalidParameterValue &e) {
    ENSURES(text_is(e.GetParameterName(), names[at]) && e.GetValue() == any32(6));
    ++bad;
  }
  ENSURES(bad == 1 && q->GetParameterValue(at).GetType() == K::PTK_None);
  pub.DeleteRequest(q);
}
// a request of anyone, with any content
namespace {
struct AnyRequest : Smp::MockIRequest {
  const char *name;
  int32_t count;
  AnySimple a, b;
  Smp::String8 GetOperationName() const override { return name; }
  Smp::Int32 GetParameterCount() const override { return count; }
  Smp::Int32 GetParameterIndex(Smp::String8 n) const override { return text_is(n, "a") ? 0 : text_is(n, "b") ? 1 : -1; }
  AnySimple GetParameterValue(Smp::Int32 i) const override {
    ENSURES(i == 0 || i == 1);
    return i ? b : a;
  }
};
} // namespace
CONTRACT(C22, invocation) {
  Registry r;
  Owner owner;
  Object plain;
  bool dynamic = __spec_choose("dynamic");
  Operation op("op", "", dynamic ? static_cast<Smp::IObject *>(&owner) : &plain, Smp::ViewKind::VK_None, &r);
  Parameters p(2);
  int n = p.n;
  for (int i = 0; i < n; ++i)
    op.PublishParameter(p[i].name, "", Types::uuid(p[i].type), p[i].direction);
  AnyRequest q;
  int name = below(4, "name");
  q.name = name == 0 ? "op" : name == 1 ? "o" : name == 2 ? "opp" : nullptr;
  q.count = i32("count");
  q.a = __spec_choose("none") ? AnySimple{} : any32(i32("a"));
  q.b = __spec_choose("text") ? text("abc") : any32(i32("b"));
  bool null = __spec_choose("null");
  int wrong = -1;
  for (int i = n - 1; i >= 0; --i)
    if (p[i].direction != Direction::PDK_Out && (i ? q.b : q.a).type != (p[i].type == 1 ? K::PTK_Int32 : K::PTK_String8))
      wrong = i;
  int unnamed = 0, count = 0, type = 0;
  try {
    op.Invoke(null ? nullptr : &q);
  } catch (const Smp::InvalidOperationName &e) {
    ENSURES(null || !q.name || text_is(e.GetOperationName(), q.name));
    ++unnamed;
  } catch (const Smp::InvalidParameterCount &e) {
    ENSURES(text_is(e.GetOperationName(), "op") && e.GetOperationParameters() == n && e.GetRequestParameters() == q.count);
    ++count;
  } catch (const Smp::InvalidParameterType &e) {
    ENSURES(wrong >= 0);
    ENSURES(text_is(e.GetOperationName(), "op") && text_is(e.GetParameterName(), p[wrong].name));
    ENSURES(e.GetInvalidType() == (wrong ? q.b : q.a).type && e.GetExpectedType() == (p[wrong].type == 1 ? K::PTK_Int32 : K::PTK_String8));
    ++type;
  }
  bool named = !null && name == 0 && dynamic;
  ENSURES(unnamed == !named && count == (named && q.count != n) && type == (named && q.count == n && wrong >= 0));
  ENSURES(owner.invoked == (!unnamed && !count && !type));
  if (owner.invoked)
    ENSURES(owner.request == &q);
}
// ---------------------------------------------------------------- properties
namespace {
int32_t theValue;
void getter(Smp::IRequest *q) {
  ENSURES(text_is(q->GetOperationName(), "get_p") && q->GetParameterCount() == 0 && q->GetParameterIndex("p") == -1);
  q->SetReturnValue(any32(theValue));
}
void setter(Smp::IRequest *q) {
  ENSURES(text_is(q->GetOperationName(), "set_p") && q->GetParameterCount() == 1 && q->GetParameterIndex("p") == 0);
  theValue = q->GetParameterValue(0);
}
} // namespace
CONTRACT(C22, property_values) {
  Registry r;
  Owner owner;
  Object plain;
  bool dynamic = __spec_choose("dynamic");
  auto access = Smp::AccessKind(below(3, "access"));
  auto view = Smp::ViewKind(i32("view") & 3);
  Property p("p", "a property", dynamic ? static_cast<Smp::IObject *>(&owner) : &plain, &r.number, access, view);
  ENSURES(text_is(p.GetName(), "p") && text_is(p.GetDescription(), "a property") && p.GetType() == &r.number);
  ENSURES(p.GetParent() == (dynamic ? static_cast<Smp::IObject *>(&owner) : &plain) && p.GetAccess() == access && p.GetView() == view);
  int32_t v = i32("value");
  bool in = v >= -5 && v <= 5;
  if (__spec_choose("get")) {
    theValue = v;
    owner.body = getter;
    int refused = 0, bad = 0;
    AnySimple got;
    try {
      got = p.GetValue();
    } catch (const Smp::InvalidReturnValue &) {
      ++bad;
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), "InvalidAccessKind"));
      ++refused;
    }
    ENSURES(refused == (!dynamic || access == Smp::AccessKind::AK_WriteOnly));
    ENSURES(owner.invoked == !refused && bad == (!refused && !in));
    if (!refused && !bad)
      ENSURES(got == any32(v));
  } else {
    theValue = 42;
    owner.body = setter;
    bool kind = __spec_choose("text");
    int refused = 0, bad = 0, wrong = 0;
    try {
      p.SetValue(kind ? text("a") : any32(v));
    } catch (const Smp::InvalidParameterValue &e) {
      ENSURES(text_is(e.GetParameterName(), "p") && e.GetValue() == any32(v));
      ++bad;
    } catch (const Smp::InvalidAnyType &) {
      ++wrong;
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), "InvalidAccessKind"));
      ++refused;
    }
    ENSURES(refused == (!dynamic || access == Smp::AccessKind::AK_ReadOnly));
    ENSURES(wrong == (!refused && kind) && bad == (!refused && !kind && !in));
    ENSURES(owner.invoked == (!refused && !wrong && !bad));
    ENSURES(theValue == (owner.invoked ? v : 42));
  }
}
CONTRACT(C22, property_request) {
  size_t live = __spec_live();
  {
    Registry r;
    Owner owner;
    Publication pub(&owner, &r);
    auto access = Smp::AccessKind(below(3, "access"));
    // published twice: the second one counts
    if (__spec_choose("before"))
      pub.PublishProperty("p", "", Types::uuid(2), Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_None);
    pub.PublishProperty("p", "a property", Types::uuid(1), access, Smp::ViewKind::VK_All);
    ENSURES(pub.GetProperties()->size() == 1);
    auto *p = pub.GetProperties()->at("p");
    ENSURES(p && text_is(p->GetDescription(), "a property") && p->GetType() == &r.number && p->GetAccess() == access && p->GetView() == Smp::ViewKind::VK_All);
    int reg = 0;
    try {
      pub.PublishProperty(__spec_choose("new") ? "q" : "p", "", Types::uuid(9), access, Smp::ViewKind::VK_None);
    } catch (const Smp::Publication::TypeNotRegistered &) {
      ++reg;
    }
    ENSURES(reg == 1 && pub.GetProperties()->size() == 1 && p->GetType() == &r.number);
    bool shadow = __spec_choose("an operation of that name");
    if (shadow)
      pub.PublishOperation("get_p", "", Smp::ViewKind::VK_None);
    auto *get = pub.CreateRequest("get_p"), *set = pub.CreateRequest("set_p");
    ENSURES((get != nullptr) == (shadow || access != Smp::AccessKind::AK_WriteOnly));
    ENSURES((set != nullptr) == (access != Smp::AccessKind::AK_ReadOnly));
    ENSURES(pub.CreateRequest("p") == nullptr && pub.CreateRequest("get_q") == nullptr && pub.CreateRequest("set_q") == nullptr);
    ENSURES(pub.CreateRequest("get_") == nullptr && pub.CreateRequest("") == nullptr && pub.CreateRequest(nullptr) == nullptr);
    int32_t v = i32("value"), at = i32("index");
    bool in = v >= -5 && v <= 5;
    if (get) {
      ENSURES(text_is(get->GetOperationName(), "get_p") && get->GetParameterCount() == 0 && get->GetParameterIndex("p") == -1);
      int index = 0, bad = 0, none = 0;
      try {
        get->SetParameterValue(at, any32(v));
      } catch (const Smp::InvalidParameterIndex &e) {
        ENSURES(e.GetParameterIndex() == at && e.GetParameterCount() == 0);
        ++index;
      }
      try {
        (void)get->GetParameterValue(at);
      } catch (const Smp::InvalidParameterIndex &) {
        ++index;
      }
      ENSURES(index == 2);
      try {
        get->SetReturnValue(any32(v));
      } catch (const Smp::InvalidReturnValue &) {
        ++bad;
      } catch (const Smp::VoidOperation &) {
        ++none;
      }
      ENSURES(none == shadow && bad == (!shadow && !in));
      if (!shadow && !bad)
        ENSURES(get->GetReturnValue() == any32(v));
    }
    if (set) {
      ENSURES(text_is(set->GetOperationName(), "set_p") && set->GetParameterCount() == 1 && set->GetParameterIndex("p") == 0);
      int index = 0, bad = 0, none = 0;
      try {
        set->SetParameterValue(at, any32(v));
      } catch (const Smp::InvalidParameterIndex &e) {
        ENSURES(e.GetParameterIndex() == at && e.GetParameterCount() == 1);
        ++index;
      } catch (const Smp::InvalidParameterValue &e) {
        ENSURES(text_is(e.GetParameterName(), "p") && e.GetValue() == any32(v));
        ++bad;
      }
      ENSURES(index == (at != 0) && bad == (at == 0 && !in));
      ENSURES(set->GetParameterValue(0) == (index || bad ? AnySimple{} : any32(v)));
      try {
        set->SetReturnValue(any32(v));
      } catch (const Smp::VoidOperation &) {
        ++none;
      }
      try {
        (void)set->GetReturnValue();
      } catch (const Smp::VoidOperation &) {
        ++none;
      }
      ENSURES(none == 2);
    }
    pub.DeleteRequest(get);
    pub.DeleteRequest(set);
  }
  ENSURES(__spec_live() == live);
}
// ---------------------------------------------------------------- parameters that are composed
namespace {
// an operation with any parameters, outside a publication
struct Composed : Named<Smp::MockIOperation> {
  struct Argument : Named<Smp::MockIParameter> {
    Smp::Publication::IType *type = nullptr;
    Smp::Publication::IType *GetType() const override { return type; }
    Direction GetDirection() const override { return Direction::PDK_In; }
  };
  Argument first, second;
  Xsmp::Collection<Smp::IParameter> all{"Parameters"};
  const Smp::ParameterCollection *GetParameters() const override { return &all; }
  Smp::IParameter *GetReturnParameter() const override { return nullptr; }
};
struct Arrays : Types {
  Array inner, outer; // [2] of 32 bit numbers, [2] of that
  StructureType s{"s", "", nullptr, Types::uuid(8)};
  Arrays() {
    inner.item = &i32;
    inner.count = 2;
    outer.item = &inner;
    outer.count = 2;
    s.AddField("x", "", Types::uuid(1), 0);
    s.AddField("y", "", Types::uuid(3), 8);
  }
};
} // namespace
CONTRACT(C22, composed_request) {
  Arrays t;
  Composed op;
  op.first.name_ = "p";
  int shape = below(4, "shape");
  op.first.type = shape == 0 ? static_cast<Smp::Publication::IType *>(&t.i32) : shape == 1 ? static_cast<Smp::Publication::IType *>(&t.inner) : shape == 2 ? static_cast<Smp::Publication::IType *>(&t.outer) : &t.s;
  op.second.name_ = "q";
  op.second.type = &t.f64;
  op.all.Add(&op.first);
  op.all.Add(&op.second);
  Request r(&op, &t);
  const char *names[4][4] = {{"p"}, {"p[0]", "p[1]"}, {"p[0][0]", "p[0][1]", "p[1][0]", "p[1][1]"}, {"p.x", "p.y[0]", "p.y[1]"}};
  int n = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 4 : 3;
  ENSURES(r.GetParameterCount() == n + 1 && r.GetParameterIndex("q") == n);
  for (int i = 0; i < n; ++i)
    ENSURES(r.GetParameterIndex(names[shape][i]) == i);
  ENSURES(shape == 0 || r.GetParameterIndex("p") == -1);
  ENSURES(r.GetParameterIndex("p[2]") == -1 && r.GetParameterIndex("p.z") == -1);
  int at = below(n, "at");
  int32_t v = i32("v");
  r.SetParameterValue(at, any32(v));
  for (int i = 0; i < n; ++i)
    ENSURES(r.GetParameterValue(i) == (i == at ? any32(v) : AnySimple{}));
}
CONTRACT(C22, composed_unknown) {
  Arrays t;
  Composed op;
  op.first.name_ = "p";
  t.s.AddField("z", "", Types::uuid(99), 16);
  Types::Simple none;
  bool field = __spec_choose("field");
  op.first.type = field ? static_cast<Smp::Publication::IType *>(&t.s) : &none;
  op.all.Add(&op.first);
  int reg = 0, kind = 0;
  try {
    Request r(&op, &t);
  } catch (const Smp::Publication::TypeNotRegistered &e) {
    ENSURES(e.GetUuid() == Types::uuid(99));
    ++reg;
  } catch (const Smp::InvalidAnyType &) {
    ++kind;
  }
  ENSURES(reg == field && kind == !field);
}
// ---------------------------------------------------------------- parameters of the generated invocations
namespace {
struct Sim : Smp::MockISimulator {
  Types *types;
  Smp::Publication::ITypeRegistry *GetTypeRegistry() const override { return types; }
};
struct Target : Named<Smp::MockIComponent> {
  Sim *sim;
  Smp::ISimulator *GetSimulator() { return sim; }
};
// a request with parameters p, p[0], p[1], p.x, p.y
struct Bag : Smp::MockIRequest {
  static constexpr const char *names[5] = {"p", "p[0]", "p[1]", "p.x", "p.y"};
  bool has[5] = {};
  AnySimple value[5];
  AnySimple returned;
  int sets = 0, base = 0; // the index of the first one is 0
  Smp::String8 GetOperationName() const override { return "op"; }
  Smp::Int32 GetParameterIndex(Smp::String8 n) const override {
    for (int i = 0; i < 5; ++i)
      if (has[i] && text_is(n, names[i]))
        return i - base;
    return -1;
  }
  AnySimple GetParameterValue(Smp::Int32 i) const override {
    i += base;
    ENSURES(i >= 0 && i < 5 && has[i]);
    return value[i];
  }
  void SetParameterValue(Smp::Int32 i, AnySimple v) override {
    i += base;
    ENSURES(i >= 0 && i < 5 && has[i]);
    value[i] = v;
    ++sets;
  }
  void SetReturnValue(AnySimple v) override { returned = v; }
};
struct Point {
  Smp::Int32 x;
  Smp::Float64 y;
  template <class B> struct _Field : B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name, Smp::String8 d = "",
           Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Point &value = {})
        : B(r, u, name, d, p, v), x{r, Types::uuid(1), "x", "", this, v, value.x}, y{r, Types::uuid(2), "y", "", this, v, value.y} {}
    typename B::template Field<Smp::Int32> x;
    typename B::template Field<Smp::Float64> y;
    operator Point() const { return {x, y}; }
  };
};
} // namespace
CONTRACT(C22, simple_parameters) {
  Target c;
  Bag q;
  int32_t v = i32("v"), d = i32("default");
  q.has[0] = __spec_choose("has");
  K kind = __spec_choose("kind") ? K::PTK_Int32 : K::PTK_Int16;
  if (__spec_choose("get")) {
    q.value[0] = any32(v);
    bool opt = __spec_choose("optional");
    int missing = 0, wrong = 0;
    int32_t got = 0;
    try {
      got = opt ? Xsmp::Request::get<int32_t>(&c, &q, "p", kind, d) : Xsmp::Request::get<int32_t>(&c, &q, "p", kind);
    } catch (const Smp::InvalidParameterType &e) {
      ENSURES(text_is(e.GetOperationName(), "op") && text_is(e.GetParameterName(), "p"));
      ENSURES(e.GetInvalidType() == K::PTK_Int32 && e.GetExpectedType() == kind);
      ++wrong;
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), "p"));
      ++missing;
    }
    ENSURES(missing == (!q.has[0] && !opt) && wrong == (q.has[0] && kind != K::PTK_Int32));
    if (!missing && !wrong)
      ENSURES(got == (q.has[0] ? v : d));
    ENSURES(q.sets == 0);
  } else {
    int missing = 0;
    try {
      Xsmp::Request::set<int32_t>(&c, &q, "p", K::PTK_Int32, v);
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), "p"));
      ++missing;
    }
    ENSURES(missing == !q.has[0] && q.sets == q.has[0]);
    if (q.has[0])
      ENSURES(q.value[0] == any32(v));
    Xsmp::Request::setReturnValue<int32_t>(&q, K::PTK_Int32, d);
    ENSURES(q.returned == any32(d));
  }
}
namespace {
template <class Two> void composed() {
  Types t;
  Sim sim;
  sim.types = &t;
  Target c;
  c.sim = &sim;
  Bag q;
  bool array = __spec_choose("array");
  int lo = array ? 1 : 3;
  q.base = lo;
  q.has[lo] = __spec_choose("first");
  q.has[lo + 1] = __spec_choose("second");
  int32_t a = i32("a"), b = i32("b"), d = i32("default");
  bool both = q.has[lo] && q.has[lo + 1];
  int missing = 0;
  if (__spec_choose("get")) {
    q.value[lo] = any32(a);
    q.value[lo + 1] = array ? any32(b) : AnySimple{K::PTK_Float64, 2.5};
    bool opt = __spec_choose("optional");
    Two got{};
    Point point{};
    try {
      if (array)
        got = opt ? Xsmp::Request::get<Two>(&c, &q, "p", Types::uuid(3), Two{{d, 7}})
                  : Xsmp::Request::get<Two>(&c, &q, "p", Types::uuid(3));
      else
        point = opt ? Xsmp::Request::get<Point>(&c, &q, "p", Types::uuid(5), Point{d, 7.5})
                    : Xsmp::Request::get<Point>(&c, &q, "p", Types::uuid(5));
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), Bag::names[q.has[lo] ? lo + 1 : lo]));
      ++missing;
    }
    ENSURES(missing == (!both && !opt) && q.sets == 0);
    if (!missing && array)
      ENSURES(got[0] == (q.has[1] ? a : d) && got[1] == (q.has[2] ? b : 7));
    if (!missing && !array)
      ENSURES(point.x == (q.has[3] ? a : d) && point.y == (q.has[4] ? 2.5 : 7.5));
  } else {
    try {
      if (array)
        Xsmp::Request::set(&c, &q, "p", Types::uuid(3), Two{{a, b}});
      else
        Xsmp::Request::set(&c, &q, "p", Types::uuid(5), Point{a, 2.5});
    } catch (const Smp::Exception &e) {
      ENSURES(text_is(e.GetName(), Bag::names[q.has[lo] ? lo + 1 : lo]));
      ++missing;
    }
    ENSURES(missing == !both);
    if (q.has[lo])
      ENSURES(q.value[lo] == any32(a));
    if (both)
      ENSURES(q.value[lo + 1] == (array ? any32(b) : AnySimple{K::PTK_Float64, 2.5}) && q.sets == 2);
  }
}
} // namespace
CONTRACT_T(C22, composed_parameters_and_fields, composed<Xsmp::Array<Smp::Int32, 2>>)
CONTRACT_T(C22, simple_array_parameters_and_fields, composed<Xsmp::Array<Smp::Int32, 2>::simple>)
