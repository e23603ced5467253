// The state vector file, and a simulation stored in it.
// @sources: src/Xsmp/StorageReader.cpp src/Xsmp/StorageWriter.cpp src/Xsmp/Simulator.cpp src/Xsmp/FactoryCollection.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Request.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Smp/Uuid.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Request.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Component.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/LibraryHelper.cpp
// @flags: -I$V/smp -I$R/src-gen
// @bounded: .* | at most three blocks of at most eight bytes; a simulator with one service, two models and two fields
// @models: models_pthread.cpp models_exceptions.cpp models_ctype.cpp models_tree.cpp models_hash.cpp models_file.cpp
#include "file_ghost.h"
#include "smp_common.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Simulator.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
using ghost::Disk;
using S = Smp::SimulatorStateKind;
using C = Smp::ComponentStateKind;
namespace {
int below(int n, const char *name) {
  int i = 0;
  while (i < n - 1 && __spec_choose(name))
    ++i;
  return i;
}
ghost::Condition condition() { return ghost::Condition(below(4, "condition")); }
struct Block {
  unsigned char b[8];
  size_t n;
};
Block block(size_t n) {
  Block k;
  __spec_nondet(k.b, 8, "bytes");
  k.n = n;
  return k;
}
} // namespace
CONTRACT(C28, blocks_are_restored_as_stored) {
  Disk d(__spec_choose("missing") ? ghost::MISSING : ghost::READY);
  int n = below(4, "blocks");
  Block k[3];
  {
    Xsmp::StorageWriter w{d.path(), "f.bin"};
    ENSURES(text_is(w.GetStateVectorFilePath(), d.path()) && text_is(w.GetStateVectorFileName(), "f.bin"));
    for (int i = 0; i < n; ++i) {
      k[i] = block(__spec_choose("size") ? 8 : __spec_choose("size") ? 3 : 0);
      w.Store(k[i].b, k[i].n);
    }
    if (__spec_choose("close"))
      w.Close();
  }
  Xsmp::StorageReader r{d.path(), "f.bin"};
  ENSURES(text_is(r.GetStateVectorFilePath(), d.path()) && text_is(r.GetStateVectorFileName(), "f.bin"));
  for (int i = 0; i < n; ++i) {
    unsigned char c[8] = {};
    r.Restore(c, k[i].n);
    for (size_t j = 0; j < k[i].n; ++j)
      ENSURES(c[j] == k[i].b[j]);
  }
  // there is nothing more
  bool refused = false;
  try {
    unsigned char c;
    r.Restore(&c, 1);
  } catch (const Smp::CannotRestore &) {
    refused = true;
  }
  ENSURES(refused);
}
// what is stored again is what is restored
CONTRACT(C28, files_are_replaced) {
  Disk d(ghost::READY);
  for (int i = 0; i < 2; ++i) {
    Xsmp::StorageWriter w{d.path(), "f.bin"};
    unsigned char c[3] = {1, 2, 3};
    w.Store(c, i ? 2 : 3);
  }
  ENSURES(d.size("f.bin") == 2);
}
// once closed, either all is in the file or there was an exception
CONTRACT(C28, failures_to_store_are_reported) {
  auto c = condition();
  Disk d(c);
  bool large = __spec_choose("large");
  bool refused = false;
  static unsigned char big[9000];
  try {
    Xsmp::StorageWriter w{d.path(), "f.bin"};
    ENSURES(c != ghost::BLOCKED && d.made());
    if (large) {
      REQUIRES(c == ghost::FULL);
      w.Store(big, sizeof big);
      ENSURES(false);
    }
    auto k = block(8);
    w.Store(k.b, 8);
    w.Store(k.b, 3);
    w.Close();
    ENSURES(d.size("f.bin") == 11);
  } catch (const Smp::CannotStore &) {
    refused = true;
  }
  ENSURES(refused == (c == ghost::FULL || c == ghost::BLOCKED));
}
CONTRACT(C28, failures_to_restore_are_reported) {
  Disk d(__spec_choose("missing") ? ghost::MISSING : ghost::READY);
  bool stored = d.made() && __spec_choose("stored");
  if (stored) {
    Xsmp::StorageWriter w{d.path(), "f.bin"};
    auto k = block(8);
    w.Store(k.b, 5);
  }
  int refused = 0;
  try {
    Xsmp::StorageReader r{d.path(), "f.bin"};
    ENSURES(stored);
    unsigned char c[8];
    r.Restore(c, 3);
    ++refused;
    r.Restore(c, 3);
    ENSURES(false);
  } catch (const Smp::CannotRestore &) {
    ++refused;
  }
  ENSURES(refused == 1 + stored);
}
namespace {
template <class B> struct Part : Named<B> {
  C state = C::CSK_Connected;
  C GetState() const override { return state; }
  void Disconnect() override { state = C::CSK_Disconnected; }
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
};
// a value that is stored
template <class B> struct Value : B {
  unsigned char v[4];
  bool fails = false;
  void Store(Smp::IStorageWriter *w) {
    if (fails)
      Xsmp::Exception::throwCannotStore(this, "no");
    w->Store(v, sizeof v);
  }
  void Restore(Smp::IStorageReader *r) {
    if (fails)
      Xsmp::Exception::throwCannotRestore(this, "no");
    r->Restore(v, sizeof v);
  }
};
struct Field : Value<Named<Smp::MockIField>> {};
struct Ev : Part<Smp::Services::MockIEventManager> {
  Xsmp::Simulator *sim = nullptr;
  Smp::Services::EventId seen[6];
  int n = 0;
  void Emit(Smp::Services::EventId id, Smp::Bool) override {
    if (n < 6)
      seen[n++] = id;
  }
};
struct Leaf : Value<Part<Smp::MockIModel>>, virtual Smp::IPersist {
  void Store(Smp::IStorageWriter *w) override { Value::Store(w); }
  void Restore(Smp::IStorageReader *r) override { Value::Restore(r); }
};
struct Parent : Part<Smp::MockIModel>, Xsmp::Composite {
  Xsmp::Container<Smp::IModel> children{"Children", "", this, 0, -1};
  Field f[2];
  Xsmp::Collection<Smp::IField> fields{"Fields"};
  Parent() {
    f[0].name_ = "f0";
    f[1].name_ = "f1";
    fields.Add(&f[0]);
    fields.Add(&f[1]);
  }
  const Smp::FieldCollection *GetFields() const override { return &fields; }
};
struct World {
  Xsmp::Simulator *sim = new Xsmp::Simulator;
  Ev *ev = new Ev;
  Parent *p = new Parent;
  Leaf *a = new Leaf, *b = new Leaf;
  World() {
    ev->name_ = "ev";
    ev->parent_ = p->parent_ = b->parent_ = sim;
    p->name_ = "p";
    a->name_ = "a";
    b->name_ = "b";
    a->parent_ = p;
    ev->sim = sim;
    sim->AddService(ev);
    p->children.AddComponent(a);
    sim->AddModel(p);
    sim->AddModel(b);
    sim->Connect();
    ev->n = 0;
    ENSURES(sim->GetState() == S::SSK_Standby);
  }
  ~World() { delete sim; }
  unsigned char *value(int i) { return i == 0 ? p->f[0].v : i == 1 ? p->f[1].v : i == 2 ? a->v : b->v; }
  bool &fails(int i) { return i == 0 ? p->f[0].fails : i == 1 ? p->f[1].fails : i == 2 ? a->fails : b->fails; }
};
using EM = Smp::Services::IEventManager;
} // namespace
CONTRACT(C28, simulations_are_restored_as_stored) {
  World w;
  Disk d(__spec_choose("missing") ? ghost::MISSING : ghost::READY);
  unsigned char v[4][4];
  for (int i = 0; i < 4; ++i) {
    __spec_nondet(v[i], 4, "value");
    memcpy(w.value(i), v[i], 4);
  }
  w.sim->Store(d.path());
  ENSURES(w.sim->GetState() == S::SSK_Standby && w.ev->n == 4);
  ENSURES(w.ev->seen[0] == EM::SMP_LeaveStandbyId && w.ev->seen[1] == EM::SMP_EnterStoringId);
  ENSURES(w.ev->seen[2] == EM::SMP_LeaveStoringId && w.ev->seen[3] == EM::SMP_EnterStandbyId);
  for (int i = 0; i < 4; ++i)
    ENSURES(memcmp(w.value(i), v[i], 4) == 0);
  for (int i = 0; i < 4; ++i)
    memset(w.value(i), i, 4);
  w.ev->n = 0;
  w.sim->Restore(d.path());
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      ENSURES(w.value(i)[j] == v[i][j]);
  ENSURES(w.sim->GetState() == S::SSK_Standby && w.ev->n == 4);
  ENSURES(w.ev->seen[0] == EM::SMP_LeaveStandbyId && w.ev->seen[1] == EM::SMP_EnterRestoringId);
  ENSURES(w.ev->seen[2] == EM::SMP_LeaveRestoringId && w.ev->seen[3] == EM::SMP_EnterStandbyId);
}
// a failure is reported, and another attempt is possible
CONTRACT(C28, failing_to_store_a_simulation) {
  World w;
  auto c = condition();
  Disk d(c);
  int who = below(5, "who");
  if (who < 4)
    w.fails(who) = true;
  for (int i = 0; i < 4; ++i)
    memset(w.value(i), i, 4);
  bool refused = false;
  try {
    w.sim->Store(d.path());
  } catch (const Smp::CannotStore &) {
    refused = true;
  }
  ENSURES(refused == (who < 4 || c == ghost::BLOCKED || c == ghost::FULL));
  ENSURES(w.sim->GetState() == S::SSK_Standby && w.ev->n == 4 && w.ev->seen[3] == EM::SMP_EnterStandbyId);
}
CONTRACT(C28, failing_to_restore_a_simulation) {
  World w;
  Disk d(ghost::READY);
  for (int i = 0; i < 4; ++i)
    __spec_nondet(w.value(i), 4, "value");
  int how = below(7, "how");
  if (how)
    w.sim->Store(d.path());
  w.ev->n = 0;
  auto *extra = new Leaf;
  extra->name_ = "extra";
  extra->parent_ = w.sim;
  memset(extra->v, 0, 4);
  if (how >= 1 && how <= 4)
    w.fails(how - 1) = true;
  else if (how == 5) // its end is missing
    d.truncate("simulator.bin", d.size("simulator.bin") - 1);
  else if (how == 6) // another simulation
    w.sim->AddModel(extra);
  bool refused = false;
  try {
    w.sim->Restore(d.path());
  } catch (const Smp::CannotRestore &) {
    refused = true;
  }
  ENSURES(refused);
  ENSURES(w.sim->GetState() == S::SSK_Standby && w.ev->n == 4 && w.ev->seen[3] == EM::SMP_EnterStandbyId);
  if (how != 6)
    delete extra;
}
namespace {
// a model with up to two fields
struct Plain : Part<Smp::MockIModel> {
  Field f[2];
  Xsmp::Collection<Smp::IField> fields{"Fields"};
  explicit Plain(int n) {
    f[0].name_ = "f0";
    f[1].name_ = "f1";
    for (int i = 0; i < n; ++i) {
      __spec_nondet(f[i].v, 4, "field");
      fields.Add(&f[i]);
    }
  }
  const Smp::FieldCollection *GetFields() const override { return &fields; }
};
struct Simulation {
  Xsmp::Simulator *sim = new Xsmp::Simulator;
  explicit Simulation(int kind) {
    if (kind < 3) {
      auto *x = new Plain(kind);
      x->name_ = "x";
      x->parent_ = sim;
      sim->AddModel(x);
    } else {
      auto *x = new Leaf;
      x->name_ = "x";
      x->parent_ = sim;
      __spec_nondet(x->v, 4, "x");
      sim->AddModel(x);
    }
    auto *y = new Leaf;
    y->name_ = "y";
    y->parent_ = sim;
    __spec_nondet(y->v, 4, "y");
    sim->AddModel(y);
    sim->Connect();
  }
  ~Simulation() { delete sim; }
};
} // namespace
CONTRACT(C28, other_simulations_are_refused) {
  Disk d(ghost::READY);
  int a = below(4, "a"), b = below(4, "b");
  Simulation from(a), to(b);
  from.sim->Store(d.path());
  bool refused = false;
  try {
    to.sim->Restore(d.path());
  } catch (const Smp::CannotRestore &) {
    refused = true;
  }
  ENSURES(refused == (a != b));
}
