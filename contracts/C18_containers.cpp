// Containers and references respect their limits, types and names.
// @sources: src/Xsmp/Container.cpp src/Xsmp/Reference.cpp src/Xsmp/Composite.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp
// @bounded: .* | at most three components, whose names are equal or different in every combination
#include "collection_common.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/ReferenceFull.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Reference.h>
using State = Smp::ComponentStateKind;
namespace {
template <class M> struct Comp : Named<M> {
  int *gone = nullptr, *clock = nullptr, *when = nullptr, *disconnected = nullptr;
  State state = State::CSK_Created;
  State GetState() const override { return state; }
  void Disconnect() override {
    ENSURES(state == State::CSK_Connected);
    state = State::CSK_Disconnected;
    ++*disconnected;
  }
  ~Comp() noexcept override {
    if (gone)
      ++*gone;
    if (when)
      *when = ++*clock;
  }
};
using C = Comp<Smp::MockIComponent>;
using S = Comp<Smp::MockIService>; // another kind of component
// a collection that knows one name
template <class T> struct OneThing : Smp::ICollection<T> {
  const char *key = nullptr;
  T *thing = nullptr;
  T *at(Smp::String8 n) const override { return key && text_is(n, key) ? thing : nullptr; }
  T *at(size_t) const override { return nullptr; }
  size_t size() const override { return 0; }
  typename Smp::ICollection<T>::const_iterator begin() const override { return {*this, 0}; }
  typename Smp::ICollection<T>::const_iterator end() const override { return {*this, 0}; }
  Smp::String8 GetName() const override { return "things"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
};
// an owner with one more child of some kind
struct Owner : Smp::MockIFallibleModel,
               Smp::MockIEntryPointPublisher,
               Smp::MockIDynamicInvocation,
               Smp::MockIEventProvider,
               Smp::MockIEventConsumer,
               Xsmp::Composite {
  int kind = 0;
  const char *key = "ab";
  Named<Smp::MockIField> f;
  Named<Smp::MockIEntryPoint> ep;
  Named<Smp::MockIOperation> op;
  Named<Smp::MockIProperty> pr;
  Named<Smp::MockIEventSource> src;
  Named<Smp::MockIEventSink> snk;
  Named<Smp::MockIFailure> fail;
  OneThing<Smp::IOperation> ops;
  OneThing<Smp::IProperty> props;
  template <class T> T *if_(int k, Smp::String8 n, const T &t) const {
    return kind == k && text_is(n, key) ? const_cast<T *>(&t) : nullptr;
  }
  Smp::String8 GetName() const override { return "owner"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  State GetState() const override { return State::CSK_Created; }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::Uuid &GetUuid() const override { static Smp::Uuid u; return u; }
  Smp::IField *GetField(Smp::String8 n) const override { return if_(1, n, f); }
  Smp::IEntryPoint *GetEntryPoint(Smp::String8 n) const override { return if_(2, n, ep); }
  const Smp::OperationCollection *GetOperations() const override { return kind == 3 ? &ops : nullptr; }
  const Smp::PropertyCollection *GetProperties() const override { return kind == 4 ? &props : nullptr; }
  Smp::IEventSource *GetEventSource(Smp::String8 n) const override { return if_(5, n, src); }
  Smp::IEventSink *GetEventSink(Smp::String8 n) const override { return if_(6, n, snk); }
  Smp::IFailure *GetFailure(Smp::String8 n) const override { return if_(7, n, fail); }
  Owner() {
    ops.key = props.key = key;
    ops.thing = &op;
    props.thing = &pr;
  }
};
struct Aggregate : Smp::MockIModel, Xsmp::Aggregate {
  Smp::String8 GetName() const override { return "owner"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  State GetState() const override { return State::CSK_Created; }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::Uuid &GetUuid() const override { static Smp::Uuid u; return u; }
};
// what is in it, in this order, by every way to ask
template <class X> void lists(X &c, Smp::IComponent *const *e, const int *in, int count, const Names &nm) {
  holds(*c.GetComponents(), e, in, count);
  ENSURES(c.GetCount() == count && c.size() == size_t(count) && c.empty() == (count == 0));
  const X &cc = c;
  int i = 0;
  for (auto *x : c) {
    ENSURES(i < count && x == e[in[i]]);
    ENSURES(c[size_t(i)] == x && cc[size_t(i)] == x && c.at(size_t(i)) == x && cc.at(size_t(i)) == x);
    ++i;
  }
  ENSURES(i == count);
  for (auto *x : cc)
    ENSURES(x == e[in[i++ - count]]);
  if (count) {
    ENSURES(c.front() == e[in[0]] && c.back() == e[in[count - 1]]);
    ENSURES(*c.rbegin() == c.back() && *cc.cbegin() == c.front());
  }
  OneName o;
  auto want = o.pick(4, "want");
  Smp::IComponent *expect = nullptr;
  for (int k = count; k--;)
    if (nm.n[in[k]].len == want.len && memcmp(nm.n[in[k]].p, want.p, want.len) == 0)
      expect = e[in[k]];
  ENSURES(c.GetComponent(want.p) == expect);
  ENSURES(c.GetComponents()->at(want.p) == expect);
  ENSURES(c.GetComponent(static_cast<Smp::String8>(nullptr)) == nullptr);
  if (expect)
    ENSURES(*c.find(want.p) == expect && *cc.find(want.p) == expect && c.at(want.p) == expect && c[want.p] == expect);
  else {
    int thrown = 0;
    try {
      c.at(want.p);
    } catch (const std::out_of_range &) {
      ++thrown;
    }
    try {
      cc.at(want.p);
    } catch (const std::out_of_range &) {
      ++thrown;
    }
    ENSURES(thrown == 2 && c.find(want.p) == c.end() && cc.find(want.p) == cc.end());
  }
}
} // namespace

// additions until it is full, with all combinations of names
CONTRACT(C18, container_add) {
  Names nm;
  Owner o;
  int gone[3] = {0, 0, 0};
  Smp::IComponent *e[3];
  C *raw[3];
  bool own[3] = {false, false, false};
  for (int i = 0; i < 3; ++i) {
    e[i] = raw[i] = new C;
    raw[i]->name_ = nm.n[i].p;
    raw[i]->parent_ = static_cast<Smp::IComposite *>(&o);
    raw[i]->gone = &gone[i];
  }
  int64_t upper = below(4, "upper") - 1;
  {
    Xsmp::Container<Smp::IComponent> c("box", "a box", &o, 0, upper);
    ENSURES(text_is(c.GetName(), "box") && text_is(c.GetDescription(), "a box"));
    ENSURES(c.GetParent() == static_cast<Smp::IComposite *>(&o));
    ENSURES(c.GetLower() == 0 && c.GetUpper() == upper);
    ENSURES(o.GetContainer("box") == &c && o.GetContainers()->size() == 1);
    int in[3], count = 0;
    for (int i = 0; i < 3; ++i) {
      bool full = upper >= 0 && count >= upper, taken = false;
      for (int j = 0; j < count; ++j)
        if (nm.same(in[j], i))
          taken = true;
      try {
        c.AddComponent(e[i]);
        ENSURES(!full && !taken);
        own[i] = true;
        in[count++] = i;
      } catch (const Smp::ContainerFull &x) {
        ENSURES(full && x.GetSender() == &c && text_is(x.GetContainerName(), "box"));
        ENSURES(x.GetContainerSize() == count);
      } catch (const Smp::DuplicateName &x) {
        ENSURES(!full && taken && x.GetSender() == &c && text_is(x.GetDuplicateName(), nm.n[i].p));
      }
      ENSURES(c.GetCount() == count && gone[i] == 0);
    }
    lists(c, e, in, count, nm);
  }
  for (int i = 0; i < 3; ++i) {
    ENSURES(gone[i] == (own[i] ? 1 : 0)); // its own components are destroyed with it
    if (!own[i])
      delete raw[i];
  }
}
// the name must be free among all children of the owner
CONTRACT(C18, container_sibling_names) {
  Owner o;
  C a;
  auto *b = new C;
  b->name_ = __spec_choose("prefix") ? "a" : "ab";
  b->parent_ = static_cast<Smp::IComposite *>(&o);
  a.parent_ = b->parent_;
  a.name_ = "ab";
  o.kind = below(9, "kind");
  Xsmp::Container<Smp::IComponent> other("other", "", &o, 0, -1), c("box", "", &o, 0, -1);
  if (o.kind == 8)
    other.AddComponent(new C(a));
  bool refused = false;
  try {
    c.AddComponent(b);
  } catch (const Smp::DuplicateName &x) {
    refused = true;
    ENSURES(x.GetSender() == &c && text_is(x.GetDuplicateName(), b->name_));
  }
  ENSURES(refused == (o.kind > 0 && b->name_[1]));
  ENSURES(c.GetCount() == (refused ? 0 : 1));
  if (refused)
    delete b;
}
// components of another type or another owner are refused
CONTRACT(C18, container_type_and_owner) {
  Owner o, p;
  Xsmp::Container<Smp::IService> c("box", "", &o, 0, -1);
  C wrong;
  S right;
  wrong.parent_ = static_cast<Smp::IComposite *>(&o);
  right.parent_ = static_cast<Smp::IComposite *>(&p);
  Smp::IComponent *x = __spec_choose("null") ? nullptr : &wrong;
  int refused = 0;
  try {
    c.AddComponent(x);
  } catch (const Smp::InvalidObjectType &e) {
    ++refused;
    ENSURES(e.GetSender() == &c && e.GetInvalidObject() == x);
  }
  try {
    c.AddComponent(&right);
  } catch (const Smp::Exception &e) {
    ++refused;
    ENSURES(e.GetSender() == &c);
  }
  ENSURES(refused == 2 && c.GetCount() == 0 && c.empty());
  try {
    c.DeleteComponent(x);
  } catch (const Smp::NotContained &e) {
    ++refused;
    ENSURES(e.GetSender() == &c && e.GetComponent() == x);
  }
  ENSURES(refused == 3);
}
// deletion disconnects, destroys once and keeps the others in order
CONTRACT(C18, container_delete) {
  Names nm;
  Owner o;
  int gone[3] = {0, 0, 0}, disconnected[3] = {0, 0, 0};
  int64_t lower = below(4, "lower");
  Xsmp::Container<Smp::IComponent> c("box", "", &o, lower, -1);
  Smp::IComponent *e[3];
  int in[3], count = 0;
  State state[3];
  for (int i = 0; i < 3; ++i) {
    auto *r = new C;
    r->name_ = nm.n[i].p;
    r->parent_ = static_cast<Smp::IComposite *>(&o);
    r->gone = &gone[i];
    r->disconnected = &disconnected[i];
    e[i] = r;
    bool taken = false;
    for (int j = 0; j < i; ++j)
      if (nm.same(j, i))
        taken = true;
    REQUIRES(!taken);
    c.AddComponent(r);
    in[count++] = i;
  }
  int k = below(3, "victim");
  auto st = spec::nondet<int32_t>("state");
  REQUIRES(st >= 0 && st <= int32_t(State::CSK_Disconnected));
  dynamic_cast<C *>(e[k])->state = static_cast<State>(st);
  try {
    c.DeleteComponent(e[k]);
    ENSURES(lower < 3);
    ENSURES(gone[k] == 1);
    ENSURES(disconnected[k] == (st == int32_t(State::CSK_Connected) ? 1 : 0));
    count = 0;
    for (int i = 0; i < 3; ++i)
      if (i != k)
        in[count++] = i;
  } catch (const Smp::CannotDelete &x) {
    ENSURES(lower >= 3 && gone[k] == 0 && disconnected[k] == 0);
    ENSURES(x.GetSender() == &c && x.GetComponent() == e[k] && x.GetLowerLimit() == lower);
  }
  for (int i = 0; i < 3; ++i)
    if (i != k)
      ENSURES(gone[i] == 0 && disconnected[i] == 0);
  lists(c, e, in, count, nm);
  C stranger;
  bool refused = false;
  try {
    c.DeleteComponent(&stranger);
  } catch (const Smp::NotContained &x) {
    refused = true;
    ENSURES(x.GetSender() == &c && x.GetComponent() == &stranger && text_is(x.GetContainerName(), "box"));
  }
  ENSURES(refused && c.GetCount() == count);
}
// the components go in the reverse order of their addition
CONTRACT(C18, container_destruction) {
  Owner o;
  int clock = 0, when[3] = {0, 0, 0};
  {
    Xsmp::Container<Smp::IComponent> c("box", "", &o, 0, -1);
    const char *const names[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) {
      auto *r = new C;
      r->name_ = names[i];
      r->parent_ = static_cast<Smp::IComposite *>(&o);
      r->clock = &clock;
      r->when = &when[i];
      c.AddComponent(r);
    }
  }
  ENSURES(when[2] == 1 && when[1] == 2 && when[0] == 3);
}
CONTRACT(C18, reference_add) {
  Names nm;
  Aggregate o;
  C el[3];
  Smp::IComponent *e[3];
  for (int i = 0; i < 3; ++i) {
    el[i].name_ = nm.n[i].p;
    e[i] = &el[i];
  }
  int64_t upper = below(4, "upper") - 1;
  Xsmp::Reference<Smp::IComponent> c("ref", "a reference", &o, 1, upper);
  ENSURES(text_is(c.GetName(), "ref") && text_is(c.GetDescription(), "a reference"));
  ENSURES(c.GetParent() == static_cast<Smp::IAggregate *>(&o) && c.GetLower() == 1 && c.GetUpper() == upper);
  ENSURES(o.GetReference("ref") == &c && o.GetReferences()->size() == 1);
  int in[3], count = 0;
  for (int i = 0; i < 3; ++i) {
    bool full = upper >= 0 && count >= upper;
    try {
      c.AddComponent(e[i]); // equal names are fine
      ENSURES(!full);
      in[count++] = i;
    } catch (const Smp::ReferenceFull &x) {
      ENSURES(full && x.GetSender() == &c && text_is(x.GetReferenceName(), "ref") && x.GetReferenceSize() == count);
    }
  }
  lists(c, e, in, count, nm);
}
CONTRACT(C18, reference_remove) {
  Names nm;
  Aggregate o;
  C el[3];
  Smp::IComponent *e[3];
  int64_t lower = below(4, "lower");
  Xsmp::Reference<Smp::IComponent> c("ref", "", &o, lower, -1);
  for (int i = 0; i < 3; ++i) {
    el[i].name_ = nm.n[i].p;
    e[i] = &el[i];
    c.AddComponent(e[i]);
  }
  int in[3] = {0, 1, 2}, count = 3, k = below(4, "victim");
  C stranger;
  S other;
  Smp::IComponent *victim = k < 3 ? e[k] : __spec_choose("null") ? nullptr : &stranger;
  try {
    c.RemoveComponent(victim);
    ENSURES(k < 3 && lower < 3);
    count = 0;
    for (int i = 0; i < 3; ++i)
      if (i != k)
        in[count++] = i;
  } catch (const Smp::NotReferenced &x) {
    ENSURES(k == 3 && x.GetSender() == &c && x.GetComponent() == victim && text_is(x.GetReferenceName(), "ref"));
  } catch (const Smp::CannotRemove &x) {
    ENSURES(k < 3 && lower >= 3 && x.GetSender() == &c && x.GetComponent() == victim && x.GetLowerLimit() == lower);
    ENSURES(text_is(x.GetReferenceName(), "ref"));
  }
  lists(c, e, in, count, nm);
}
CONTRACT(C18, reference_type) {
  Aggregate o;
  Xsmp::Reference<Smp::IService> c("ref", "", &o, 0, -1);
  C wrong;
  S right;
  Smp::IComponent *x = __spec_choose("null") ? nullptr : &wrong;
  int refused = 0;
  try {
    c.AddComponent(x);
  } catch (const Smp::InvalidObjectType &e) {
    ++refused;
    ENSURES(e.GetSender() == &c && e.GetInvalidObject() == x);
  }
  ENSURES(refused == 1 && c.GetCount() == 0);
  c.AddComponent(&right);
  c.AddComponent(&right); // twice is twice
  ENSURES(c.GetCount() == 2 && c.GetComponent(size_t(1)) == &right);
  try {
    c.RemoveComponent(x);
  } catch (const Smp::NotReferenced &e) {
    ++refused;
    ENSURES(e.GetComponent() == x);
  }
  ENSURES(refused == 2 && c.GetCount() == 2);
  c.RemoveComponent(&right);
  ENSURES(c.GetCount() == 1 && c.GetComponent(size_t(0)) == &right);
}
