// Events reach exactly the subscribed sinks, and callbacks are called once.
// @sources: src/Xsmp/Component.cpp src/Xsmp/Field.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/EventSource.cpp src/Xsmp/EventSink.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/EventProvider.cpp src/Xsmp/EventConsumer.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: .*subscription.*|.*while_emitting.*|.*registration.* | at most three sinks of one source, at most three operations
#include "collection_common.h"
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/DuplicateName.h>
#include <Xsmp/Component.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/String.h>
namespace {
struct Sink : Named<Smp::MockIEventSink> {
  K kind = K::PTK_None;
  int notified = 0;
  Smp::IObject *sender = nullptr;
  Smp::AnySimple value;
  Smp::IEventSource *source = nullptr;
  Smp::IEventSink *other = nullptr;
  bool add = false;
  K GetEventArgType() const override { return kind; }
  void Notify(Smp::IObject *s, Smp::AnySimple v) override {
    ++notified;
    sender = s;
    value = v;
    if (source && other) {
      if (add)
        source->Subscribe(other);
      else
        source->Unsubscribe(other);
      other = nullptr;
    }
  }
};
using Owner = Named<Smp::MockIComponent>;
} // namespace
CONTRACT(C20, subscription) {
  Owner owner;
  auto kind = anyKind("source kind");
  Xsmp::EventSource<Smp::Bool> typed("e", "an event", &owner, kind);
  ENSURES(text_is(typed.GetName(), "e") && text_is(typed.GetDescription(), "an event") && typed.GetParent() == &owner);
  ENSURES(typed.GetEventArgType() == kind);
  Sink k, first;
  k.kind = anyKind("sink kind");
  first.kind = kind;
  if (__spec_choose("another sink before"))
    typed.Subscribe(&first);
  bool refused = false;
  try {
    typed.Subscribe(&k);
  } catch (const Smp::InvalidEventSink &e) {
    refused = true;
    ENSURES(e.GetSender() == &typed && e.GetEventSink() == &k && e.GetEventSource() == &typed);
  }
  ENSURES(refused == (k.kind != kind));
  int missing = 0;
  try {
    typed.Unsubscribe(&k);
  } catch (const Smp::EventSinkNotSubscribed &e) {
    ++missing;
    ENSURES(e.GetSender() == &typed && e.GetEventSink() == &k && e.GetEventSource() == &typed);
  }
  ENSURES(missing == int(refused));
}
CONTRACT(C20, subscriptions) {
  Owner owner, sender;
  Xsmp::EventSource<> e("e", "", &owner);
  Sink k[2];
  bool in[2] = {false, false};
  int form = below(4, "form");
  for (int step = 0; step < 3; ++step) {
    int i = below(2, "sink");
    bool add = __spec_choose("subscribe");
    int already = 0, missing = 0;
    try {
      if (add)
        e.Subscribe(&k[i]);
      else
        e.Unsubscribe(&k[i]);
    } catch (const Smp::EventSinkAlreadySubscribed &x) {
      ++already;
      ENSURES(x.GetSender() == &e && x.GetEventSink() == &k[i] && x.GetEventSource() == &e);
    } catch (const Smp::EventSinkNotSubscribed &x) {
      ++missing;
      ENSURES(x.GetSender() == &e && x.GetEventSink() == &k[i] && x.GetEventSource() == &e);
    }
    ENSURES(already == (add && in[i]) && missing == (!add && !in[i]));
    in[i] = add;
    if (form == 0)
      e.Emit();
    else if (form == 1)
      e();
    else if (form == 2)
      e.Emit(&sender);
    else
      e(&sender);
    for (int j = 0; j < 2; ++j) {
      ENSURES(k[j].notified == in[j]);
      if (in[j])
        ENSURES(k[j].sender == (form < 2 ? static_cast<Smp::IObject *>(&owner) : &sender) && k[j].value.GetType() == K::PTK_None);
      k[j].notified = 0;
    }
  }
}
// a notified sink subscribes or unsubscribes another one, or itself
CONTRACT(C20, subscription_while_emitting) {
  Owner owner;
  Xsmp::EventSource<> e("e", "", &owner);
  Sink k[3];
  for (auto &s : k)
    e.Subscribe(&s);
  int actor = below(3, "actor"), other = below(3, "other");
  bool add = __spec_choose("add");
  if (add) {
    REQUIRES(actor != other);
    e.Unsubscribe(&k[other]);
  }
  k[actor].source = &e;
  k[actor].other = &k[other];
  k[actor].add = add;
  e.Emit();
  for (int i = 0; i < 3; ++i)
    if (i != other || other == actor)
      ENSURES(k[i].notified == 1);
    else
      ENSURES(k[i].notified <= 1);
  for (auto &s : k)
    s.notified = 0;
  e.Emit();
  for (int i = 0; i < 3; ++i)
    ENSURES(k[i].notified == (i == other ? int(add) : 1));
}
// ---------------------------------------------------------------- values
namespace {
enum class Colour : Smp::Int16 { red = -2, green = 300 };
template <class T> struct Of {
  static T any() { return spec::nondet<T>("value"); }
  static bool same(T a, T b) { return a == b; }
  static bool is(const Smp::AnySimple &v, T x) { return static_cast<T>(v) == x; }
};
template <> struct Of<Smp::Bool> {
  static bool any() { return __spec_choose("value"); }
  static bool same(bool a, bool b) { return a == b; }
  static bool is(const Smp::AnySimple &v, bool x) { return static_cast<bool>(v) == x; }
};
template <> struct Of<Smp::Float64> {
  static double any() { return spec::nondet<double>("value"); }
  static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
  static bool is(const Smp::AnySimple &v, double x) { return same(static_cast<double>(v), x); }
};
template <> struct Of<Colour> {
  static Colour any() { return __spec_choose("value") ? Colour::red : Colour::green; }
  static bool same(Colour a, Colour b) { return a == b; }
  static bool is(const Smp::AnySimple &v, Colour x) { return static_cast<int16_t>(v) == int16_t(x); }
};
using Text = Xsmp::String<3>;
template <> struct Of<Text> {
  static Text any() { return __spec_choose("value") ? "ab" : ""; }
  static bool same(const Text &a, const Text &b) { return text_is(a.c_str(), b.c_str()); }
  static bool is(const Smp::AnySimple &v, const Text &x) { return text_is(static_cast<Smp::String8>(v), x.c_str()); }
};
template <class T, K kind> void values() {
  Owner owner, sender;
  Xsmp::EventSource<T> e("e", "", &owner, kind);
  Sink k;
  k.kind = kind;
  e.Subscribe(&k);
  T got{};
  Smp::IObject *from = nullptr;
  int calls = 0;
  Xsmp::EventSink<T> sink(
      "s", "a sink", &owner,
      [&](Smp::IObject *s, T v) {
        ++calls;
        from = s;
        got = v;
      },
      kind);
  ENSURES(text_is(sink.GetName(), "s") && text_is(sink.GetDescription(), "a sink") && sink.GetParent() == &owner);
  ENSURES(sink.GetEventArgType() == kind);
  e.Subscribe(&sink);
  T v = Of<T>::any();
  int form = below(4, "form");
  if (form == 0)
    e.Emit(v);
  else if (form == 1)
    e(v);
  else if (form == 2)
    e.Emit(&sender, v);
  else
    e(&sender, v);
  auto *want = form < 2 ? static_cast<Smp::IObject *>(&owner) : &sender;
  ENSURES(k.notified == 1 && k.sender == want && k.value.GetType() == kind && Of<T>::is(k.value, v));
  ENSURES(calls == 1);
  ENSURES(from == want);
  ENSURES(Of<T>::same(got, v));
}
} // namespace
CONTRACT_T(C20, values_bool, values<Smp::Bool, K::PTK_Bool>)
CONTRACT_T(C20, values_char8, values<Smp::Char8, K::PTK_Char8>)
CONTRACT_T(C20, values_int8, values<Smp::Int8, K::PTK_Int8>)
CONTRACT_T(C20, values_uint16, values<Smp::UInt16, K::PTK_UInt16>)
CONTRACT_T(C20, values_int32, values<Smp::Int32, K::PTK_Int32>)
CONTRACT_T(C20, values_int64, values<Smp::Int64, K::PTK_Int64>)
CONTRACT_T(C20, values_uint64, values<Smp::UInt64, K::PTK_UInt64>)
CONTRACT_T(C20, values_float64, values<Smp::Float64, K::PTK_Float64>)
CONTRACT_T(C20, values_duration, values<Smp::Duration, K::PTK_Duration>)
CONTRACT_T(C20, values_date_time, values<Smp::DateTime, K::PTK_DateTime>)
CONTRACT_T(C20, values_enumeration, values<Colour, K::PTK_Int16>)
CONTRACT_T(C20, values_text, values<Text, K::PTK_String8>)
CONTRACT(C20, sink_without_value) {
  Owner owner, sender;
  int calls = 0;
  Smp::IObject *from = nullptr;
  Xsmp::EventSink<> sink("s", "a sink", &owner, [&](Smp::IObject *s) {
    ++calls;
    from = s;
  });
  ENSURES(text_is(sink.GetName(), "s") && text_is(sink.GetDescription(), "a sink") && sink.GetParent() == &owner);
  ENSURES(sink.GetEventArgType() == K::PTK_None);
  bool wrong = __spec_choose("with a value");
  int refused = 0;
  try {
    sink.Notify(&sender, wrong ? Smp::AnySimple{K::PTK_Int32, spec::nondet<int32_t>("v")} : Smp::AnySimple{});
  } catch (const Smp::InvalidAnyType &e) {
    ++refused;
    ENSURES(e.GetInvalidType() == K::PTK_Int32 && e.GetExpectedType() == K::PTK_None);
  }
  ENSURES(refused == wrong && calls == !wrong && from == (wrong ? nullptr : &sender));
}
CONTRACT(C20, entry_point) {
  Owner owner;
  int calls = 0;
  Xsmp::EntryPoint e("go", "an entry point", &owner, [&] { ++calls; });
  ENSURES(text_is(e.GetName(), "go") && text_is(e.GetDescription(), "an entry point") && e.GetParent() == &owner);
  if (__spec_choose("form"))
    e.Execute();
  else
    e();
  ENSURES(calls == 1);
  e.Execute();
  ENSURES(calls == 2);
}
// ---------------------------------------------------------------- registration with the owner
namespace {
struct Model : Xsmp::Component, Xsmp::EventProvider, Xsmp::EventConsumer, Xsmp::EntryPointPublisher {
  using Component::Component;
};
template <class C, class Make, class T> void registers(const C *all, T *(Model::*find)(Smp::String8) const, Model &m, Make make) {
  ENSURES(all->size() == 0 && (m.*find)("a") == nullptr);
  auto *a = make("a");
  ENSURES(all->size() == 1 && all->at(size_t(0)) == a && (m.*find)("a") == a && (m.*find)("b") == nullptr);
  ENSURES(a->GetParent() == static_cast<Xsmp::Component *>(&m));
  bool clash = __spec_choose("same name");
  T *b = nullptr;
  int refused = 0;
  try {
    b = make(clash ? "a" : "b");
  } catch (const Smp::DuplicateName &) {
    ++refused;
  }
  ENSURES(refused == clash && all->size() == (clash ? 1u : 2u));
  ENSURES((m.*find)("a") == a && (m.*find)("b") == b && all->at(size_t(1)) == b);
  ENSURES((m.*find)(nullptr) == nullptr);
  delete b;
  delete a;
}
} // namespace
CONTRACT(C20, registration_sources) {
  Model m("m");
  auto *p = static_cast<Xsmp::EventProvider *>(&m);
  registers<Smp::EventSourceCollection, std::function<Smp::IEventSource *(const char *)>, Smp::IEventSource>(
      m.GetEventSources(), &Model::GetEventSource, m,
      [&](const char *n) -> Smp::IEventSource * { return new Xsmp::EventSource<>(n, "", p); });
}
CONTRACT(C20, registration_sinks) {
  Model m("m");
  auto *p = static_cast<Xsmp::EventConsumer *>(&m);
  registers<Smp::EventSinkCollection, std::function<Smp::IEventSink *(const char *)>, Smp::IEventSink>(
      m.GetEventSinks(), &Model::GetEventSink, m,
      [&](const char *n) -> Smp::IEventSink * { return new Xsmp::EventSink<>(n, "", p, [](Smp::IObject *) {}); });
}
CONTRACT(C20, registration_entry_points) {
  Model m("m");
  auto *p = static_cast<Xsmp::EntryPointPublisher *>(&m);
  registers<Smp::EntryPointCollection, std::function<Smp::IEntryPoint *(const char *)>, Smp::IEntryPoint>(
      m.GetEntryPoints(), &Model::GetEntryPoint, m,
      [&](const char *n) -> Smp::IEntryPoint * { return new Xsmp::EntryPoint(n, "", p, [] {}); });
}
