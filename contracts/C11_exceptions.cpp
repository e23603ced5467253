// Every SDK exception carries what it was thrown with.
// @sources: src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp
#include "smp_common.h"
#include <Xsmp/Exception.h>
#include <Smp/CannotDelete.h>
#include <string>
#include <string_view>
using namespace Xsmp::Exception;
using Smp::AnySimple;
namespace {
// the text of an arbitrary argument, possibly null
struct Text {
  const char *p;
  const char *want;
};
Text anyText(const char *n) {
  auto s = spec::cstr(n);
  if (__spec_choose("null"))
    return {nullptr, "<null>"};
  return {s.p, s.p};
}
bool holds(const char *got, const Text &t) { return got != t.p && text_is(got, t.want); }
// thrown as E, as the base Exception and as std::exception
template <class E, class F, class C>
void raises(F thrower, const Smp::IObject *sender, const char *name, C check) {
  size_t live = __spec_live();
  bool caught = false;
  try {
    thrower();
  } catch (const E &e) {
    caught = true;
    check(e);
  }
  ENSURES(caught);
  ENSURES(__spec_live() == live);
  caught = false;
  try {
    thrower();
  } catch (const Smp::Exception &e) {
    caught = true;
    ENSURES(e.GetSender() == sender);
    ENSURES(text_is(e.GetName(), name));
    const char *w = e.what(), *d = e.GetDescription(), *m = e.GetMessage();
    ENSURES(w != nullptr && d != nullptr && m != nullptr);
    std::string text = std::string(name) + "(" + d + "): " + m;
    ENSURES(text_is(w, text.c_str()));
    ENSURES(dynamic_cast<const std::exception *>(&e) != nullptr);
    ENSURES(dynamic_cast<const E *>(&e) != nullptr);
  }
  ENSURES(caught);
  ENSURES(__spec_live() == live);
}
template <class T> T *someone(const char *n) { return __spec_choose(n) ? nullptr : new Named<T>(n); }
struct Obj : Named<Smp::MockIObject> {};
struct Cont : Named<Smp::MockIContainer> {
  int64_t count = spec::nondet<int64_t>("count"), lower = spec::nondet<int64_t>("lower"),
          upper = spec::nondet<int64_t>("upper");
  int64_t GetCount() const override { return count; }
  int64_t GetLower() const override { return lower; }
  int64_t GetUpper() const override { return upper; }
};
struct Ty : Named<Smp::Publication::MockIType> {
  Smp::Uuid GetUuid() const override { return {}; }
};
template <class M> struct Fld : Named<M> {
  Ty type;
  uint64_t size = spec::nondet<uint64_t>("size");
  const Smp::Publication::IType *GetType() const override { return &type; }
  uint64_t GetSize() const { return size; }
};
struct SimpleArr : Named<Smp::MockISimpleArrayField> {
  Ty type;
  uint64_t size = spec::nondet<uint64_t>("size");
  const Smp::Publication::IType *GetType() const override { return &type; }
  uint64_t GetSize() const override { return size; }
};
struct Arr : Named<Smp::MockIArrayField> {
  uint64_t size = spec::nondet<uint64_t>("size");
  uint64_t GetSize() const override { return size; }
};
struct Field : Named<Smp::MockIField> {
  Ty type;
  const Smp::Publication::IType *GetType() const override { return &type; }
};
using DataField = Named<Smp::MockIDataflowField>;
using Comp = Named<Smp::MockIComponent>;
using Ref = Named<Smp::MockIReference>;
using Sink = Named<Smp::MockIEventSink>;
using Source = Named<Smp::MockIEventSource>;
using Entry = Named<Smp::MockIEntryPoint>;
struct Fact : Named<Smp::MockIFactory> {
  Smp::Uuid GetUuid() const override { return {}; }
};
// The concrete run also formats the message, which prints times with the date
// library: a time within a year of the limits of 64-bit nanoseconds is outside
// that library's domain.  The proof needs no such bound.
bool printable(int64_t t) { return t > INT64_MIN / 2 && t < INT64_MAX / 2; }
int64_t anyTime(const char *n) {
  auto t = spec::nondet<int64_t>(n);
  REQUIRES(!__spec_native() || printable(t));
  return t;
}
AnySimple anyNumber() {
  AnySimple a;
  auto k = anyKind("vkind");
  REQUIRES(k != K::PTK_String8);
  a.type = k;
  a.value.uInt64Value = spec::nondet<uint64_t>("vbits");
  if (k == K::PTK_Bool)
    a.value.boolValue = true;
  REQUIRES(!__spec_native() || (k != K::PTK_Duration && k != K::PTK_DateTime) || printable(a.value.durationValue));
  return a;
}
bool sameValue(const AnySimple &a, const AnySimple &b) {
  return a.type == b.type && a.value.uInt64Value == b.value.uInt64Value;
}
} // namespace
CONTRACT(C11, field_already_connected) {
  Obj o;
  DataField s;
  Field t;
  raises<Smp::FieldAlreadyConnected>([&] { throwFieldAlreadyConnected(&o, &s, &t); }, &o, "FieldAlreadyConnected",
                                     [&](auto &e) { ENSURES(e.GetSource() == &s && e.GetTarget() == &t); });
}
CONTRACT(C11, invalid_target) {
  Obj o;
  DataField s;
  Field t;
  raises<Smp::InvalidTarget>([&] { throwInvalidTarget(&o, &s, &t); }, &o, "InvalidTarget",
                             [&](auto &e) { ENSURES(e.GetSource() == &s && e.GetTarget() == &t); });
}
CONTRACT(C11, cannot_store_restore) {
  Obj o;
  raises<Smp::CannotStore>([&] { throwCannotStore(&o, "msg"); }, &o, "CannotStore", [&](auto &) {});
  raises<Smp::CannotRestore>([&] { throwCannotRestore(&o, "msg"); }, &o, "CannotRestore", [&](auto &) {});
}
CONTRACT(C11, invalid_object_name) {
  Obj o;
  auto t = anyText("name");
  raises<Smp::InvalidObjectName>([&] { throwInvalidObjectName(&o, t.p, "why"); }, &o, "InvalidObjectName",
                                 [&](auto &e) { ENSURES(holds(e.GetInvalidName(), t)); });
}
CONTRACT(C11, container_full) {
  Cont c;
  raises<Smp::ContainerFull>([&] { throwContainerFull(&c); }, &c, "ContainerFull", [&](auto &e) {
    ENSURES(text_is(e.GetContainerName(), c.name_));
    ENSURES(e.GetContainerSize() == c.count);
  });
}
CONTRACT(C11, duplicate_name) {
  Obj o, p;
  auto t = anyText("name");
  raises<Smp::DuplicateName>([&] { throwDuplicateName(&o, t.p, &p); }, &o, "DuplicateName",
                             [&](auto &e) { ENSURES(holds(e.GetDuplicateName(), t)); });
}
CONTRACT(C11, not_contained) {
  Cont c;
  Comp m;
  raises<Smp::NotContained>([&] { throwNotContained(&c, &m); }, &c, "NotContained", [&](auto &e) {
    ENSURES(text_is(e.GetContainerName(), c.name_));
    ENSURES(e.GetComponent() == &m);
  });
}
CONTRACT(C11, cannot_delete) {
  Cont c;
  Comp m;
  raises<Smp::CannotDelete>([&] { throwCannotDelete(&c, &m); }, &c, "CannotDelete", [&](auto &e) {
    ENSURES(text_is(e.GetContainerName(), c.name_));
    ENSURES(e.GetComponent() == &m && e.GetLowerLimit() == c.lower);
  });
}
CONTRACT(C11, invalid_component_state) {
  Comp c;
  auto a = static_cast<Smp::ComponentStateKind>(spec::nondet<int32_t>("a")),
       b = static_cast<Smp::ComponentStateKind>(spec::nondet<int32_t>("b"));
  raises<Smp::InvalidComponentState>([&] { throwInvalidComponentState(&c, a, b); }, &c, "InvalidComponentState",
                                     [&](auto &e) { ENSURES(e.GetInvalidState() == a && e.GetExpectedState() == b); });
}
CONTRACT(C11, invalid_object_type) {
  Obj o, p;
  Smp::IObject *invalid = __spec_choose("null") ? nullptr : &p;
  raises<Smp::InvalidObjectType>([&] { throwInvalidObjectType(&o, invalid, typeid(Smp::IComponent)); }, &o,
                                 "InvalidObjectType", [&](auto &e) { ENSURES(e.GetInvalidObject() == invalid); });
}
CONTRACT(C11, references) {
  Ref r;
  Comp c;
  auto n = spec::nondet<int64_t>("n");
  raises<Smp::NotReferenced>([&] { throwNotReferenced(&r, &c); }, &r, "NotReferenced", [&](auto &e) {
    ENSURES(text_is(e.GetReferenceName(), r.name_));
    ENSURES(e.GetComponent() == &c);
  });
  raises<Smp::ReferenceFull>([&] { throwReferenceFull(&r, n); }, &r, "ReferenceFull", [&](auto &e) {
    ENSURES(text_is(e.GetReferenceName(), r.name_));
    ENSURES(e.GetReferenceSize() == n);
  });
  raises<Smp::CannotRemove>([&] { throwCannotRemove(&r, &c, n); }, &r, "CannotRemove", [&](auto &e) {
    ENSURES(text_is(e.GetReferenceName(), r.name_));
    ENSURES(e.GetComponent() == &c && e.GetLowerLimit() == n);
  });
}
CONTRACT(C11, event_sinks) {
  Obj o;
  Source s;
  Sink k;
  auto both = [&](auto &e) { ENSURES(e.GetEventSource() == &s && e.GetEventSink() == &k); };
  raises<Smp::InvalidEventSink>([&] { throwInvalidEventSink(&o, &s, &k); }, &o, "InvalidEventSink", both);
  raises<Smp::EventSinkAlreadySubscribed>([&] { throwEventSinkAlreadySubscribed(&o, &s, &k); }, &o,
                                          "EventSinkAlreadySubscribed", both);
  raises<Smp::EventSinkNotSubscribed>([&] { throwEventSinkNotSubscribed(&o, &s, &k); }, &o, "EventSinkNotSubscribed",
                                      both);
}
CONTRACT(C11, invalid_operation_name) {
  Obj o;
  auto t = anyText("name");
  raises<Smp::InvalidOperationName>([&] { throwInvalidOperationName(&o, t.p); }, &o, "InvalidOperationName",
                                    [&](auto &e) { ENSURES(holds(e.GetOperationName(), t)); });
}
CONTRACT(C11, invalid_parameter_type) {
  Obj o;
  auto t = spec::cstr("op"), u = spec::cstr("par");
  auto a = anyKind("a"), b = anyKind("b");
  raises<Smp::InvalidParameterType>([&] { throwInvalidParameterType(&o, t.p, u.p, a, b); }, &o,
                                    "InvalidParameterType", [&](auto &e) {
                                      ENSURES(text_is(e.GetOperationName(), t.p));
                                      ENSURES(text_is(e.GetParameterName(), u.p));
                                      ENSURES(e.GetInvalidType() == a && e.GetExpectedType() == b);
                                    });
}
CONTRACT(C11, arrays) {
  SimpleArr s;
  Arr a;
  auto i = spec::nondet<uint64_t>("i");
  raises<Smp::InvalidArrayIndex>([&] { throwInvalidArrayIndex(&s, i); }, &s, "InvalidArrayIndex", [&](auto &e) {
    ENSURES(e.GetInvalidIndex() == int64_t(i) && e.GetArraySize() == int64_t(s.size));
  });
  raises<Smp::InvalidArrayIndex>([&] { throwInvalidArrayIndex(&a, i); }, &a, "InvalidArrayIndex", [&](auto &e) {
    ENSURES(e.GetInvalidIndex() == int64_t(i) && e.GetArraySize() == int64_t(a.size));
  });
  raises<Smp::InvalidArraySize>([&] { throwInvalidArraySize(&s, i); }, &s, "InvalidArraySize", [&](auto &e) {
    ENSURES(e.GetInvalidSize() == int64_t(i) && e.GetArraySize() == int64_t(s.size));
  });
}
CONTRACT(C11, values) {
  SimpleArr s;
  Field f;
  Obj o;
  auto v = anyNumber();
  auto i = spec::nondet<uint64_t>("i");
  raises<Smp::InvalidFieldValue>([&] { throwInvalidFieldValue(&f, v); }, &f, "InvalidFieldValue",
                                 [&](auto &e) { ENSURES(sameValue(e.GetInvalidFieldValue(), v)); });
  raises<Smp::InvalidArrayValue>([&] { throwInvalidArrayValue(&s, i, v); }, &s, "InvalidArrayValue", [&](auto &e) {
    ENSURES(sameValue(e.GetInvalidValue(), v));
    ENSURES(e.GetInvalidValueIndex() == int64_t(i));
  });
  raises<Smp::InvalidReturnValue>([&] { throwInvalidReturnValue(&o, v); }, &o, "InvalidReturnValue", [&](auto &e) {
    ENSURES(sameValue(e.GetValue(), v));
    ENSURES(text_is(e.GetOperationName(), o.name_));
  });
  raises<Smp::InvalidParameterValue>([&] { throwInvalidParameterValue(&o, "par", v); }, &o, "InvalidParameterValue",
                                     [&](auto &e) {
                                       ENSURES(sameValue(e.GetValue(), v));
                                       ENSURES(text_is(e.GetParameterName(), "par"));
                                     });
}
CONTRACT(C11, string_value_is_copied) {
  Field f;
  auto s = spec::cstr("s");
  AnySimple v{K::PTK_String8, s.p};
  raises<Smp::InvalidFieldValue>([&] { throwInvalidFieldValue(&f, v); }, &f, "InvalidFieldValue", [&](auto &e) {
    AnySimple got = e.GetInvalidFieldValue();
    ENSURES(got.type == K::PTK_String8 && text_is(got.value.string8Value, s.p));
    ENSURES(got.value.string8Value != v.value.string8Value);
  });
}
CONTRACT(C11, services) {
  Obj o;
  auto t = anyText("name");
  auto id = spec::nondet<Smp::Services::EventId>("id");
  auto a = anyTime("a"), b = anyTime("b"), c = anyTime("c");
  raises<Smp::Services::InvalidEventName>([&] { throwInvalidEventName(&o, t.p); }, &o, "InvalidEventName",
                                          [&](auto &) {});
  raises<Smp::Services::InvalidEventId>([&] { throwInvalidEventId(&o, id); }, &o, "InvalidEventId",
                                        [&](auto &e) { ENSURES(e.GetInvalidEventId() == id); });
  raises<Smp::Services::InvalidCycleTime>([&] { throwInvalidCycleTime(&o, a); }, &o, "InvalidCycleTime",
                                          [&](auto &) {});
  raises<Smp::Services::InvalidEventTime>([&] { throwInvalidEventTime(&o, a, b); }, &o, "InvalidEventTime",
                                          [&](auto &) {});
  raises<Smp::Services::InvalidSimulationTime>(
      [&] { throwInvalidSimulationTime(&o, a, b, c); }, &o, "InvalidSimulationTime", [&](auto &e) {
        ENSURES(e.GetCurrentTime() == a && e.GetProvidedTime() == b && e.GetMaximumTime() == c);
      });
}
CONTRACT(C11, entry_points) {
  Obj o;
  Entry p;
  auto t = spec::cstr("ev");
  auto both = [&](auto &e) { ENSURES(e.GetEntryPoint() == &p && text_is(e.GetEventName(), t.p)); };
  raises<Smp::Services::EntryPointNotSubscribed>([&] { throwEntryPointNotSubscribed(&o, &p, t.p); }, &o,
                                                 "EntryPointNotSubscribed", both);
  raises<Smp::Services::EntryPointAlreadySubscribed>([&] { throwEntryPointAlreadySubscribed(&o, &p, t.p); }, &o,
                                                     "EntryPointAlreadySubscribed", both);
}
CONTRACT(C11, invalid_field_name) {
  Obj o;
  auto t = anyText("name");
  raises<Smp::InvalidFieldName>([&] { throwInvalidFieldName(&o, t.p); }, &o, "InvalidFieldName",
                                [&](auto &e) { ENSURES(holds(e.GetFieldName(), t)); });
}
CONTRACT(C11, operations) {
  Obj o;
  auto i = spec::nondet<int32_t>("i"), n = spec::nondet<int32_t>("n");
  raises<Smp::InvalidParameterIndex>([&] { throwInvalidParameterIndex(&o, i, n); }, &o, "InvalidParameterIndex",
                                     [&](auto &e) {
                                       ENSURES(e.GetParameterIndex() == i && e.GetParameterCount() == n);
                                       ENSURES(text_is(e.GetOperationName(), o.name_));
                                     });
  raises<Smp::VoidOperation>([&] { throwVoidOperation(&o); }, &o, "VoidOperation",
                             [&](auto &e) { ENSURES(text_is(e.GetOperationName(), o.name_)); });
  auto a = anyKind("a"), b = anyKind("b");
  raises<Smp::InvalidAnyType>([&] { throwInvalidAnyType(&o, a, b); }, &o, "InvalidAnyType", [&](auto &e) {
    ENSURES(e.GetExpectedType() == a && e.GetInvalidType() == b);
  });
}
CONTRACT(C11, field_types) {
  Obj o;
  Smp::Uuid u{};
  Ty ty;
  auto k = anyKind("k");
  raises<Smp::InvalidFieldType>([&] { throwInvalidFieldType(&o, u); }, &o, "InvalidFieldType", [&](auto &) {});
  raises<Smp::InvalidFieldType>([&] { throwInvalidFieldType(&o, k); }, &o, "InvalidFieldType", [&](auto &) {});
  const Smp::Publication::IType *t = __spec_choose("null") ? nullptr : &ty;
  raises<Smp::InvalidFieldType>([&] { throwInvalidFieldType(&o, t); }, &o, "InvalidFieldType", [&](auto &) {});
}
CONTRACT(C11, duplicate_uuid) {
  Obj o;
  Fact f;
  auto t = anyText("name");
  raises<Smp::DuplicateUuid>([&] { throwDuplicateUuid(&o, &f, t.p); }, &o, "DuplicateUuid", [&](auto &e) {
    ENSURES(text_is(e.GetOldName(), f.name_));
    ENSURES(holds(e.GetNewName(), t));
  });
}
CONTRACT(C11, libraries) {
  Obj o;
  auto t = anyText("name");
  raises<Smp::LibraryNotFound>([&] { throwLibraryNotFound(&o, t.p, "why"); }, &o, "LibraryNotFound",
                               [&](auto &e) { ENSURES(holds(e.GetLibraryName(), t)); });
  raises<Smp::InvalidLibrary>([&] { throwInvalidLibrary(&o, t.p, "why"); }, &o, "InvalidLibrary",
                              [&](auto &e) { ENSURES(holds(e.GetLibraryName(), t)); });
}
CONTRACT(C11, types) {
  Obj o;
  Ty ty;
  auto t = anyText("name");
  auto k = anyKind("k");
  auto v = spec::nondet<int32_t>("v");
  raises<Smp::Publication::TypeAlreadyRegistered>(
      [&] { throwTypeAlreadyRegistered(&o, t.p, &ty); }, &o, "TypeAlreadyRegistered",
      [&](auto &e) { ENSURES(e.GetType() == &ty && holds(e.GetTypeName(), t)); });
  raises<Smp::Publication::DuplicateLiteral>(
      [&] { throwDuplicateLiteral(&o, t.p, v); }, &o, "DuplicateLiteral",
      [&](auto &e) { ENSURES(e.GetLiteralValue() == v && holds(e.GetLiteralName(), t)); });
  raises<Smp::Publication::InvalidPrimitiveType>(
      [&] { throwInvalidPrimitiveType(&o, t.p, k); }, &o, "InvalidPrimitiveType",
      [&](auto &e) { ENSURES(e.GetType() == k && holds(e.GetTypeName(), t)); });
}
CONTRACT(C11, type_not_registered) {
  Obj o;
  Smp::Uuid u = spec::nondet<Smp::Uuid>("u");
  raises<Smp::Publication::TypeNotRegistered>(
      [&] { throwTypeNotRegistered(&o, u); }, &o, "TypeNotRegistered", [&](auto &e) {
        auto g = e.GetUuid();
        ENSURES(memcmp(&g, &u, sizeof u) == 0);
      });
}
CONTRACT(C11, simulator_state) {
  Obj o;
  auto a = static_cast<Smp::SimulatorStateKind>(spec::nondet<int32_t>("a"));
  raises<Smp::InvalidSimulatorState>([&] { throwInvalidSimulatorState(&o, a); }, &o, "InvalidSimulatorState",
                                     [&](auto &e) { ENSURES(e.GetInvalidState() == a); });
}
CONTRACT(C11, plain) {
  Obj o;
  raises<Smp::Exception>([&] { throwException(&o, "Name", "Description", "text ", 4); }, &o, "Name",
                         [&](auto &e) { ENSURES(text_is(e.GetDescription(), "Description")); });
  raises<Smp::Exception>([&] { throwIncompatibleType(&o, Smp::Uuid{}, "why"); }, &o, "IncompatibleType",
                         [&](auto &) {});
}
// a copy of a thrown exception outlives the original
CONTRACT(C11, copies) {
  Obj o;
  auto t = anyText("name");
  size_t live = __spec_live();
  try {
    try {
      throwInvalidFieldName(&o, t.p);
    } catch (const Smp::InvalidFieldName &) {
      throw;
    }
  } catch (const Smp::InvalidFieldName &e) {
    ENSURES(holds(e.GetFieldName(), t));
  }
  ENSURES(__spec_live() == live);
}
