// A component follows its life cycle and gives up its links.
// @sources: src/Xsmp/Component.cpp src/Xsmp/EventSource.cpp src/Xsmp/EventProvider.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Field.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/FallibleModel.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: .*links.* | at most two linked components with up to three links of a kind
#include "collection_common.h"
#include "field_common.h"
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidOperationName.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Component.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Field.h>
#include <Xsmp/Reference.h>
using State = Smp::ComponentStateKind;
using Smp::Services::ILinkRegistry;
using Smp::Services::ILogger;
namespace {
template <class T> T *some(const char *n) { return reinterpret_cast<T *>(spec::nondet<uintptr_t>(n)); }
// an object or none
template <class T> T *maybe(T &a, const char *n) { return __spec_choose(n) ? &a : nullptr; }
struct Cmp : Xsmp::Component {
  using Component::Component;
  using Component::GetSimulator;
};
struct Ops : Smp::ICollection<Smp::IOperation> {
  Smp::IOperation *at(Smp::String8) const override { return nullptr; }
  Smp::IOperation *at(size_t) const override { return nullptr; }
  size_t size() const override { return 0; }
  const_iterator begin() const override { return {*this, 0}; }
  const_iterator end() const override { return {*this, 0}; }
  Smp::String8 GetName() const override { return "things"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
};
struct Pub : Smp::MockIPublication {
  Named<Smp::MockIField> field;
  Smp::MockIRequest request;
  const char *asked = nullptr;
  Smp::IRequest *deleted = nullptr;
  int deletions = 0;
  Ops ops;
  Smp::IField *GetField(Smp::String8 n) const override {
    const_cast<Pub *>(this)->asked = n;
    return const_cast<Named<Smp::MockIField> *>(&field);
  }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::PropertyCollection *GetProperties() const override { return nullptr; }
  const Smp::OperationCollection *GetOperations() const override { return &ops; }
  Smp::IRequest *CreateRequest(Smp::String8 n) override {
    asked = n;
    return &request;
  }
  void DeleteRequest(Smp::IRequest *r) override {
    deleted = r;
    ++deletions;
  }
};
// brings a component to a state
struct World {
  Named<Smp::MockIComposite> parent;
  Named<Smp::MockISimulator> sim, other;
  Pub pub, second;
  Smp::ISimulator *first = maybe<Smp::ISimulator>(sim, "simulator at first");
  Smp::ISimulator *later = maybe<Smp::ISimulator>(other, "simulator connected");
  Cmp c{"cmp", "a component", &parent, first};
  State state = State::CSK_Created;
  Smp::ISimulator *now = first;
  Smp::IPublication *published = nullptr;
  void reach(int n) {
    if (n > 0) {
      c.Publish(&pub);
      published = &pub;
      state = State::CSK_Publishing;
    }
    if (n > 1) {
      c.Configure(nullptr, nullptr);
      state = State::CSK_Configured;
    }
    if (n > 2) {
      c.Connect(later);
      now = later;
      state = State::CSK_Connected;
    }
    if (n > 3) {
      c.Disconnect();
      now = nullptr;
      state = State::CSK_Disconnected;
    }
  }
  void check() {
    ENSURES(c.GetState() == state);
    ENSURES(c.GetSimulator() == now);
    ENSURES(text_is(c.GetName(), "cmp") && text_is(c.GetDescription(), "a component"));
    ENSURES(c.GetParent() == &parent);
    const char *n = "x";
    if (published) {
      auto &p = published == &pub ? pub : second;
      ENSURES(c.GetField(n) == &p.field && p.asked == n);
      ENSURES(c.GetOperations() == &p.ops);
      ENSURES(c.GetFields() == nullptr && c.GetProperties() == nullptr);
      p.asked = nullptr;
      ENSURES(c.CreateRequest(n) == &p.request && p.asked == n);
      p.deletions = 0;
      c.DeleteRequest(&p.request);
      ENSURES(p.deletions == 1 && p.deleted == &p.request);
    } else {
      ENSURES(c.GetField(n) == nullptr && c.GetFields() == nullptr && c.GetOperations() == nullptr);
      ENSURES(c.GetProperties() == nullptr && c.CreateRequest(n) == nullptr);
      c.DeleteRequest(&pub.request);
      ENSURES(pub.deletions == 0);
    }
  }
};
} // namespace
// in every state each operation either moves on or is refused and changes nothing
namespace {
template <int n> void life_cycle() {
  World w;
  w.reach(n);
  w.check();
  for (int step = 0; step < 2; ++step) { // also after a refused operation
    int op = below(4, "operation");
    auto *receiver = __spec_choose("receiver") ? &w.second : nullptr;
    State needs = op == 0 ? State::CSK_Created : op == 1 ? State::CSK_Publishing : op == 2 ? State::CSK_Configured : State::CSK_Connected;
    bool refused = false, null = false;
    try {
      if (op == 0)
        w.c.Publish(receiver);
      else if (op == 1)
        w.c.Configure(nullptr, nullptr);
      else if (op == 2)
        w.c.Connect(&w.sim);
      else
        w.c.Disconnect();
    } catch (const Smp::InvalidComponentState &e) {
      refused = true;
      ENSURES(e.GetSender() == &w.c && e.GetInvalidState() == w.state && e.GetExpectedState() == needs);
    } catch (const Smp::Exception &e) {
      null = true;
      ENSURES(e.GetSender() == &w.c);
    }
    ENSURES(refused == (w.state != needs));
    ENSURES(null == (!refused && op == 0 && !receiver));
    if (!refused && !null) {
      if (op == 0) {
        w.state = State::CSK_Publishing;
        w.published = receiver;
      } else if (op == 1) {
        w.state = State::CSK_Configured;
      } else if (op == 2) {
        w.state = State::CSK_Connected;
        w.now = &w.sim;
      } else {
        w.state = State::CSK_Disconnected;
        w.now = nullptr;
      }
    }
    w.check();
  }
}
} // namespace
CONTRACT_T(C19, life_cycle_created, life_cycle<0>)
CONTRACT_T(C19, life_cycle_publishing, life_cycle<1>)
CONTRACT_T(C19, life_cycle_configured, life_cycle<2>)
CONTRACT_T(C19, life_cycle_connected, life_cycle<3>)
CONTRACT_T(C19, life_cycle_disconnected, life_cycle<4>)
CONTRACT(C19, dynamic_invocation_is_refused) {
  World w;
  w.reach(below(5, "state"));
  struct Request : Smp::MockIRequest {
    Smp::String8 GetOperationName() const override { return "work"; }
  } r;
  int thrown = 0;
  try {
    w.c.Invoke(&r);
  } catch (const Smp::InvalidOperationName &e) {
    ++thrown;
    ENSURES(e.GetSender() == &w.c && text_is(e.GetOperationName(), "work"));
  }
  ENSURES(thrown == 1);
  w.check();
}
// the user's function is called exactly once, with the arguments it wants
namespace {
struct Calls {
  int publish = 0, configure = 0, connect = 0, disconnect = 0;
  const void *a = nullptr, *b = nullptr;
  bool is(int p, int c, int n, int d, const void *x = nullptr, const void *y = nullptr) {
    return publish == p && configure == c && connect == n && disconnect == d && a == x && b == y;
  }
};
struct Base : Xsmp::Component, Calls {
  using Component::Component;
  template <class D> struct Run;
};
struct None : Base {
  using Base::Base;
};
struct Plain : Base {
  using Base::Base;
  void DoPublish() { ++publish; }
  void DoConfigure() { ++configure; }
  void DoConnect() { ++connect; }
  void DoDisconnect() { ++disconnect; }
};
struct Full : Base {
  using Base::Base;
  void DoPublish(Smp::IPublication *r) {
    ++publish;
    a = r;
  }
  void DoConfigure(ILogger *l, ILinkRegistry *k) {
    ++configure;
    a = l;
    b = k;
  }
  void DoConnect(Smp::ISimulator *s) {
    ++connect;
    a = s;
  }
  void DoDisconnect() { ++disconnect; }
};
struct Log : Base {
  using Base::Base;
  void DoConfigure(ILogger *l) {
    ++configure;
    a = l;
  }
};
struct Link : Base {
  using Base::Base;
  void DoConfigure(ILinkRegistry *k) {
    ++configure;
    b = k;
  }
};
template <class D> struct Use : D {
  using D::D;
  using H = Xsmp::Component::Helper;
  void run(int n, Smp::IPublication *r, ILogger *l, ILinkRegistry *k, Smp::ISimulator *s) {
    Base *me = this;
    if (n == 0)
      H::template Publish<D>(me, r);
    else if (n == 1)
      H::template Configure<D>(me, l, k);
    else if (n == 2)
      H::template Connect<D>(me, s);
    else
      H::template Disconnect<D>(me);
  }
};
template <class D> void hooks() {
  Pub pub;
  Named<Smp::Services::MockILogger> log;
  Named<Smp::Services::MockILinkRegistry> link;
  Named<Smp::MockISimulator> sim;
  Use<D> u("cmp");
  int n = below(4, "hook");
  Smp::IPublication *r = &pub;
  ILogger *l = &log;
  ILinkRegistry *k = &link;
  Smp::ISimulator *s = &sim;
  u.run(n, r, l, k, s);
  constexpr bool full = std::is_same_v<D, Full>, plain = std::is_same_v<D, Plain>;
  constexpr bool clog = full || std::is_same_v<D, Log>, clink = full || std::is_same_v<D, Link>;
  bool all = full || plain;
  if (n == 0)
    ENSURES(u.is(all, 0, 0, 0, full ? r : nullptr));
  else if (n == 1)
    ENSURES(u.is(0, all || clog || clink, 0, 0, clog ? l : nullptr, clink ? k : nullptr));
  else if (n == 2)
    ENSURES(u.is(0, 0, all, 0, full ? s : nullptr));
  else
    ENSURES(u.is(0, 0, 0, all));
}
} // namespace
CONTRACT_T(C19, hooks_none, hooks<None>)
CONTRACT_T(C19, hooks_plain, hooks<Plain>)
CONTRACT_T(C19, hooks_full, hooks<Full>)
CONTRACT_T(C19, hooks_logger, hooks<Log>)
CONTRACT_T(C19, hooks_links, hooks<Link>)
// links to one component are removed, those to another stay
namespace {
struct Sink : Named<Smp::MockIEventSink> {
  int notified = 0;
  K GetEventArgType() const override { return K::PTK_None; }
  void Notify(Smp::IObject *, Smp::AnySimple) override { ++notified; }
};
struct Source : Xsmp::Component, Xsmp::EventProvider, Xsmp::Aggregate {
  using Component::Component;
};
struct Remote : Named<Smp::MockIModel> {
  State GetState() const override { return State::CSK_Created; }
};
} // namespace
CONTRACT(C19, remove_links_events) {
  Source s("s");
  Remote a, b;
  Xsmp::EventSource<> e("e", "", &s), f("f", "", &s);
  Sink k[3];
  Sink other; // of another event source
  bool of_a[3];
  for (int i = 0; i < 3; ++i) {
    of_a[i] = __spec_choose("target");
    k[i].parent_ = of_a[i] ? static_cast<Smp::IObject *>(&a) : &b;
    e.Subscribe(&k[i]);
  }
  other.parent_ = &a;
  f.Subscribe(&other);
  s.RemoveLinks(&a);
  e.Emit();
  f.Emit();
  for (int i = 0; i < 3; ++i)
    ENSURES(k[i].notified == (of_a[i] ? 0 : 1));
  ENSURES(other.notified == 0);
}
CONTRACT(C19, remove_links_references) {
  Source s("s");
  Remote a, b;
  Xsmp::Reference<Smp::IModel> r("r", "", &s, 0, -1), q("q", "", &s, 0, -1);
  int count = below(4, "count"), left = 0;
  for (int i = 0; i < count; ++i) {
    bool of_a = __spec_choose("target");
    r.AddComponent(of_a ? &a : &b);
    left += !of_a;
  }
  q.AddComponent(&a);
  s.RemoveLinks(&a);
  ENSURES(r.GetCount() == left && q.GetCount() == 0);
  for (int i = 0; i < left; ++i)
    ENSURES(r.GetComponents()->at(size_t(i)) == &b);
}
// inputs of the target, also those next to each other and those of single items
namespace {
struct Fields : Smp::ICollection<Smp::IField> {
  Smp::IField *f[3] = {};
  size_t n = 0;
  Smp::IField *at(Smp::String8) const override { return nullptr; }
  Smp::IField *at(size_t i) const override { return i < n ? f[i] : nullptr; }
  size_t size() const override { return n; }
  const_iterator begin() const override { return {*this, 0}; }
  const_iterator end() const override { return {*this, n}; }
  Smp::String8 GetName() const override { return "Fields"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
};
struct FieldPub : Pub {
  Fields fields;
  const Smp::FieldCollection *GetFields() const override { return &fields; }
};
using I32 = Xsmp::Field<Smp::Int32>;
using Arr = Xsmp::Field<Xsmp::Array<Smp::Int32, 2>>;
} // namespace
CONTRACT(C19, remove_links_fields) {
  Types t;
  Source s("s");
  Remote a, b;
  FieldPub pub;
  s.Publish(&pub);
  int32_t v = spec::nondet<int32_t>("v");
  REQUIRES(v != 0);
  I32::output o(&t, Types::uuid(1), "o", "", &s);
  bool of_a[3];
  for (auto &of : of_a)
    of = __spec_choose("target");
  auto owner = [&](int i) { return of_a[i] ? static_cast<Smp::IObject *>(&a) : &b; };
  I32::input x(&t, Types::uuid(1), "x", "", owner(0)), y(&t, Types::uuid(1), "y", "", owner(1)), z(&t, Types::uuid(1), "z", "", owner(2));
  o.Connect(&x);
  o.Connect(&y);
  o.Connect(&z);
  I32 plain(&t, Types::uuid(1), "plain", "", &s);
  pub.fields.f[0] = &plain;
  pub.fields.f[1] = &o;
  pub.fields.n = 2;
  s.RemoveLinks(&a);
  o = v;
  ENSURES(x == (of_a[0] ? 0 : v) && y == (of_a[1] ? 0 : v) && z == (of_a[2] ? 0 : v));
}
CONTRACT(C19, remove_links_items) {
  Types t;
  Source s("s");
  Remote a, b;
  FieldPub pub;
  s.Publish(&pub);
  int32_t v = spec::nondet<int32_t>("v");
  REQUIRES(v != 0);
  Arr::output o(&t, Types::uuid(3), "o", "", &s);
  size_t i = __spec_choose("item") ? 1 : 0;
  I32::input x(&t, Types::uuid(1), "x", "", &a), y(&t, Types::uuid(1), "y", "", &b);
  Arr::input whole(&t, Types::uuid(3), "whole", "", __spec_choose("whole of target") ? static_cast<Smp::IObject *>(&a) : &b);
  bool one = __spec_choose("whole connected");
  o[i].Connect(&x);
  o[i].Connect(&y);
  if (one)
    o.Connect(&whole);
  pub.fields.f[0] = &o;
  pub.fields.n = 1;
  s.RemoveLinks(&a);
  o[i] = v;
  ENSURES(x == 0 && y == v);
  ENSURES(whole[i] == (one && whole.GetParent() == &b ? v : 0) && whole[1 - i] == 0);
}
