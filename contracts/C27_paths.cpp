// Paths of objects, and the objects they name.
// @sources: src/Xsmp/Helper.cpp src/Xsmp/Services/XsmpResolver.cpp src-gen/Xsmp/Services/XsmpResolverGen.cpp src/Xsmp/Component.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Reference.cpp src/Xsmp/EventSource.cpp src/Xsmp/EventProvider.cpp src/Xsmp/Field.cpp src/Xsmp/Object.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/Request.cpp
// @flags: -I$V/smp -I$R/src-gen
// @bounded: .* | one simulation with a service, three models and every kind of element
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
#include "collection_common.h"
#include <Xsmp/Aggregate.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <string>
namespace {
template <class T> struct At : Named<T> {
  At(const char *name, Smp::IObject *parent) {
    this->name_ = name;
    this->parent_ = parent;
  }
};
struct Structure : At<Smp::MockIStructureField> {
  using At::At;
  Xsmp::Collection<Smp::IField> fields{"Fields"};
  const Smp::FieldCollection *GetFields() const override { return &fields; }
  Smp::IField *GetField(Smp::String8 n) const override { return fields.at(n); }
};
struct Array : At<Smp::MockIArrayField> {
  using At::At;
  Smp::IField *items[2];
  Smp::UInt64 GetSize() const override { return 2; }
  Smp::IField *GetItem(Smp::UInt64 i) const override {
    ENSURES(i < 2);
    return items[i];
  }
};
using Field = At<Smp::MockISimpleField>;
struct Model : At<Smp::MockIModel>, Xsmp::Composite {
  using At::At;
  const Smp::FieldCollection *fields = nullptr;
  Smp::ComponentStateKind GetState() const override { return Smp::ComponentStateKind::CSK_Connected; }
  void Disconnect() override {}
  const Smp::FieldCollection *GetFields() const override { return fields; }
  Smp::IField *GetField(Smp::String8 n) const override { return nullptr; }
  Xsmp::Container<Smp::IModel> box{"box", "", this, 0, -1};
};
// one of everything
struct Rich : Model,
              Xsmp::Aggregate,
              virtual Smp::IEventProvider,
              virtual Smp::IEventConsumer,
              virtual Smp::IEntryPointPublisher,
              virtual Smp::IDynamicInvocation,
              virtual Smp::IFallibleModel {
  using Model::Model;
  At<Smp::MockIEventSource> source{"source", this};
  At<Smp::MockIEventSink> sink{"sink", this};
  At<Smp::MockIEntryPoint> entry{"entry", this};
  At<Smp::MockIOperation> operation{"operation", this};
  At<Smp::MockIProperty> property{"property", this};
  At<Smp::MockIFailure> failure{"failure", this};
  Field number{"number", this};
  Structure inner{"inner", this};
  Field x{"x", &inner}, y{"y", &inner};
  Array array{"array", &inner};
  Structure item0{"[0]", &array};
  Field z{"z", &item0}, item1{"[1]", &array};
  Xsmp::Collection<Smp::IField> all{"Fields"};
  Xsmp::Collection<Smp::IOperation> operations{"Operations"};
  Xsmp::Collection<Smp::IProperty> properties{"Properties"};
  Xsmp::Collection<Smp::IFailure> failures{"Failures"};
  Xsmp::Reference<Smp::IModel> ref{"ref", "", static_cast<Xsmp::Aggregate *>(this), 0, -1};
  bool empty = false;
  void init() {
    inner.fields.Add(&x);
    inner.fields.Add(&y);
    inner.fields.Add(&array);
    array.items[0] = &item0;
    array.items[1] = &item1;
    item0.fields.Add(&z);
    all.Add(&number);
    all.Add(&inner);
    fields = &all;
    operations.Add(&operation);
    properties.Add(&property);
    failures.Add(&failure);
  }
  static bool eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
  template <class T> T *none(T *t) const { return empty ? nullptr : t; }
  const Smp::FieldCollection *GetFields() const override { return none(fields); }
  const Smp::EventSourceCollection *GetEventSources() const override { return nullptr; }
  Smp::IEventSource *GetEventSource(Smp::String8 n) const override { return eq(n, "source") ? const_cast<At<Smp::MockIEventSource> *>(&source) : nullptr; }
  const Smp::EventSinkCollection *GetEventSinks() const override { return nullptr; }
  Smp::IEventSink *GetEventSink(Smp::String8 n) const override { return eq(n, "sink") ? const_cast<At<Smp::MockIEventSink> *>(&sink) : nullptr; }
  const Smp::EntryPointCollection *GetEntryPoints() const override { return nullptr; }
  Smp::IEntryPoint *GetEntryPoint(Smp::String8 n) const override { return eq(n, "entry") ? const_cast<At<Smp::MockIEntryPoint> *>(&entry) : nullptr; }
  Smp::IRequest *CreateRequest(Smp::String8) override { return nullptr; }
  void Invoke(Smp::IRequest *) override {}
  void DeleteRequest(Smp::IRequest *) override {}
  const Smp::PropertyCollection *GetProperties() const override { return none(&properties); }
  const Smp::OperationCollection *GetOperations() const override { return none(&operations); }
  Smp::Bool IsFailed() const override { return false; }
  const Smp::FailureCollection *GetFailures() const override { return none(&failures); }
  Smp::IFailure *GetFailure(Smp::String8) const override { return nullptr; }
};
struct Sim : Named<Smp::MockISimulator>, Xsmp::Composite {
  Sim() { this->name_ = "sim"; }
  const Smp::ContainerCollection *GetContainers() const override { return Composite::GetContainers(); }
  Smp::IContainer *GetContainer(Smp::String8 n) const override { return Composite::GetContainer(n); }
  Xsmp::Container<Smp::IModel> models{"Models", "", this, 0, -1};
  Xsmp::Container<Smp::IModel> others{"Others", "", this, 0, -1};
};
struct World {
  Sim sim;
  Xsmp::Services::XsmpResolver r{"resolver", "", nullptr, &sim};
  Rich *a = new Rich{"a", &sim};
  Model *b = new Model{"b", a}, *c = new Model{"c", b};
  Model *d = new Model{"d", &sim};
  World() {
    a->init();
    sim.models.AddComponent(a);
    sim.others.AddComponent(d);
    a->box.AddComponent(b);
    b->box.AddComponent(c);
    a->ref.AddComponent(d);
  }
  static constexpr int COUNT = 18;
  struct One {
    Smp::IObject *o;
    const char *path;
  };
  One one(int i) {
    switch (i) {
    case 0: return {&sim, "/"};
    case 1: return {a, "/a"};
    case 2: return {b, "/a/b"};
    case 3: return {c, "/a/b/c"};
    case 4: return {d, "/d"};
    case 5: return {&a->number, "/a.number"};
    case 6: return {&a->inner, "/a.inner"};
    case 7: return {&a->x, "/a.inner.x"};
    case 8: return {&a->y, "/a.inner.y"};
    case 9: return {&a->array, "/a.inner.array"};
    case 10: return {&a->item0, "/a.inner.array[0]"};
    case 11: return {&a->z, "/a.inner.array[0].z"};
    case 12: return {&a->item1, "/a.inner.array[1]"};
    case 13: return {&a->source, "/a.source"};
    case 14: return {&a->sink, "/a.sink"};
    case 15: return {&a->entry, "/a.entry"};
    case 16: return {&a->operation, "/a.operation"};
    case 17: return {&a->property, "/a.property"};
    default: return {&a->failure, "/a.failure"};
    }
  }
};
} // namespace
CONTRACT(C27, path_and_object_are_inverse) {
  World w;
  auto o = w.one(below(World::COUNT + 1, "object"));
  auto p = Xsmp::Helper::GetPath(o.o);
  ENSURES(text_is(p.c_str(), o.path));
  ENSURES(w.r.ResolveAbsolute(p.c_str()) == o.o);
  ENSURES(text_is(Xsmp::Helper::GetPath(nullptr).c_str(), "<null>"));
  // other separators lead there, too
  for (auto &x : p)
    if (x == '.')
      x = '/';
  ENSURES(w.r.ResolveAbsolute(p.c_str()) == o.o);
}
// every step that can be named
CONTRACT(C27, relative_steps) {
  World w;
  auto o = w.one(below(World::COUNT + 1, "object")).o;
  auto *parent = o->GetParent();
  auto to = [&](const char *path) { return Xsmp::Helper::Resolve(o, path); };
  ENSURES(to("") == o && to(".") == o && to("./") == o && to("/") == o && to("./.") == o);
  ENSURES(to("..") == parent && to("./..") == parent && to("../") == parent && to("../.") == parent);
  ENSURES(to("../..") == (parent ? parent->GetParent() : nullptr));
  ENSURES(to("nothing") == nullptr && to("../nothing") == nullptr && to("[7]") == nullptr);
  if (parent) {
    // away and back again
    std::string back = std::string("../") + o->GetName();
    ENSURES(to(back.c_str()) == o);
    back = back + "/" + back + "/.";
    ENSURES(to(back.c_str()) == o);
  }
}
CONTRACT(C27, relative_to_a_component) {
  World w;
  auto to = [&](const char *path) { return w.r.ResolveRelative(path, w.b); };
  ENSURES(to("c") == w.c && to("../number") == &w.a->number && to("./c/../../b") == w.b && to("../../d") == w.d);
  ENSURES(to("../inner.array[1]") == &w.a->item1 && to("../inner.y") == &w.a->y && to("../inner/x/../y") == &w.a->y);
  ENSURES(to("../../../..") == nullptr && to("../../a") == w.a);
  // paths of the other kind, or none
  ENSURES(to("/c") == nullptr && to("/") == nullptr && to(nullptr) == nullptr && to("") == w.b);
  ENSURES(w.r.ResolveAbsolute("a") == nullptr && w.r.ResolveAbsolute("") == nullptr && w.r.ResolveAbsolute(nullptr) == nullptr);
  ENSURES(w.r.ResolveAbsolute("/") == &w.sim && w.r.ResolveRelative("c", nullptr) == nullptr);
  // components follow a slash
  ENSURES(to(".c") == nullptr && to("c.nothing") == nullptr && w.r.ResolveAbsolute("/a.b") == nullptr);
  // names are whole
  ENSURES(w.r.ResolveAbsolute("/aa") == nullptr && w.r.ResolveAbsolute("/a.numbe") == nullptr && w.r.ResolveAbsolute("/A") == nullptr);
}
CONTRACT(C27, items_of_arrays) {
  World w;
  auto to = [&](const char *path) { return Xsmp::Helper::Resolve(&w.a->array, path); };
  auto *first = static_cast<Smp::IObject *>(&w.a->item0);
  auto *second = static_cast<Smp::IObject *>(&w.a->item1);
  // from the end, as in python
  ENSURES(to("[0]") == first && to("[1]") == second && to("[-1]") == second && to("[-2]") == first);
  ENSURES(to("[2]") == nullptr && to("[-3]") == nullptr && to("[9223372036854775807]") == nullptr);
  ENSURES(to("[-9223372036854775808]") == nullptr && to("[18446744073709551616]") == nullptr && to("[-18446744073709551616]") == nullptr);
  ENSURES(to("[]") == nullptr && to("[") == nullptr && to("0") == nullptr && to("[0") == nullptr && to("[1x]") == nullptr);
  ENSURES(to("[x]") == nullptr && to("[0].z") == &w.a->z && to("[0][0]") == nullptr && to("[-2].z") == &w.a->z);
  ENSURES(to("[0]/../[1]") == second && to("[0].z/../..[1]") == second);
}
CONTRACT(C27, references_and_containers) {
  World w;
  auto to = [&](const char *path) { return w.r.ResolveAbsolute(path); };
  // a component of a reference is found by its name, its own path is another
  ENSURES(to("/a/d") == w.d && text_is(Xsmp::Helper::GetPath(to("/a/d")).c_str(), "/d"));
  ENSURES(to("/a/_ref") == static_cast<Smp::IReference *>(&w.a->ref));
  ENSURES(to("/a/_box") == static_cast<Smp::IContainer *>(&w.a->box));
  ENSURES(to("/_Models") == static_cast<Smp::IContainer *>(&w.sim.models) && to("/Models") == nullptr);
  ENSURES(to("/a/_nothing") == nullptr && to("/a/_") == nullptr && to("/a/box") == nullptr);
}
// elements that are not there
CONTRACT(C27, models_without_elements) {
  World w;
  w.a->empty = true;
  auto to = [&](const char *path) { return w.r.ResolveAbsolute(path); };
  ENSURES(to("/a.number") == nullptr && to("/a.operation") == nullptr && to("/a.failure") == nullptr);
  ENSURES(to("/a/b") == w.b && to("/a.sink") == static_cast<Smp::IEventSink *>(&w.a->sink));
}
CONTRACT(C27, ancestors) {
  World w;
  auto a = w.one(below(World::COUNT + 1, "ancestor")).o;
  auto o = w.one(below(World::COUNT + 1, "object")).o;
  bool is = false;
  for (Smp::IObject *p = o; p; p = p->GetParent())
    is |= p == a;
  ENSURES(Xsmp::Helper::IsAncestor(a, o) == is);
  ENSURES(!Xsmp::Helper::IsAncestor(nullptr, o) && !Xsmp::Helper::IsAncestor(a, nullptr));
}
