// The simulator: states, global events, components, holding, aborting.
// @sources: src/Xsmp/Simulator.cpp src/Xsmp/FactoryCollection.cpp src/Xsmp/Publication/Field.cpp src/Xsmp/Publication/Operation.cpp src/Xsmp/Publication/Property.cpp src/Xsmp/Publication/Publication.cpp src/Xsmp/Publication/Request.cpp src/Xsmp/Publication/Type.cpp src/Xsmp/Publication/TypeRegistry.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Smp/Uuid.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Request.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Component.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/LibraryHelper.cpp src/Xsmp/StorageReader.cpp src/Xsmp/StorageWriter.cpp
// @flags: -I$V/smp -I$R/src-gen
// @bounded: .* | one simulator with six services, three models and three entry points of the initialisation; two commands after building or connecting, acts of one event handler in each
// @models: models_pthread.cpp models_exceptions.cpp models_ctype.cpp models_tree.cpp models_hash.cpp
#include "smp_common.h"
#include <Smp/InvalidSimulatorState.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidEventId.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Simulator.h>
using EM = Smp::Services::IEventManager;
using S = Smp::SimulatorStateKind;
using C = Smp::ComponentStateKind;
namespace {
int below(int n, const char *name) {
  int i = 0;
  while (i < n - 1 && __spec_choose(name))
    ++i;
  return i;
}
struct World;
// a component that knows what it has been told
template <class B> struct Part : Named<B> {
  World *w = nullptr;
  int number = 0;
  C state = C::CSK_Created;
  C GetState() const override { return state; }
  void Publish(Smp::IPublication *p) override;
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) override;
  void Connect(Smp::ISimulator *s) override;
  void Disconnect() override;
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
};
struct Ev : Part<Smp::Services::MockIEventManager> {
  const Smp::IEntryPoint *pre = nullptr; // subscribed to SMP_PreSimTimeChange
  void Emit(Smp::Services::EventId id, Smp::Bool synchronous) override;
  void Subscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) override;
  void Unsubscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) override;
};
struct Lg : Part<Smp::Services::MockILogger> {
  void Log(const Smp::IObject *, Smp::String8, Smp::Services::LogMessageKind) override {}
};
struct Links : Part<Smp::Services::MockILinkRegistry> {};
struct Sched : Part<Smp::Services::MockIScheduler> {
  const Smp::IEntryPoint *ep = nullptr;
  Smp::Duration at = 0;
  Smp::Services::EventId AddSimulationTimeEvent(const Smp::IEntryPoint *e, Smp::Duration t, Smp::Duration,
                                                Smp::Int64 repeat) override {
    ENSURES(!ep && repeat == 0);
    ep = e;
    at = t;
    return 7;
  }
  void RemoveEvent(Smp::Services::EventId id) override;
};
struct Time : Part<Smp::Services::MockITimeKeeper> {};
struct Res : Part<Smp::Services::MockIResolver> {};
struct Model : Part<Smp::MockIModel> {};
struct Parent : Part<Smp::MockIModel>, Xsmp::Composite {
  Xsmp::Container<Smp::IModel> children{"Children", "", this, 0, -1};
};
struct Init : Named<Smp::MockIEntryPoint> {
  World *w = nullptr;
  int number = 0;
  void Execute() const override;
};
struct World {
  Xsmp::Simulator *sim;
  Ev *ev;
  Lg *log;
  Links *links;
  Sched *sched;
  Time *time;
  Res *res;
  Model *a, *c;
  Parent *p;
  Init init[3];
  int inits[6] = {}, ninits = 0;
  bool all_services = true;
  // the last global event
  Smp::Services::EventId last = 0;
  int emitted = 0;
  void (*act)(World &, Smp::Services::EventId) = nullptr;
  bool held = false; // by the contract, while executing
  template <class P> P *make(P *p, const char *name, Smp::IObject *parent, int number) {
    p->name_ = name;
    p->parent_ = parent;
    p->w = this;
    p->number = number;
    return p;
  }
  World() {
    sim = new Xsmp::Simulator;
    ev = make(new Ev, "ev", sim, 0);
    log = make(new Lg, "log", sim, 1);
    links = make(new Links, "links", sim, 2);
    sched = make(new Sched, "sched", sim, 3);
    time = make(new Time, "time", sim, 4);
    res = make(new Res, "res", sim, 5);
    a = make(new Model, "a", sim, 6);
    p = make(new Parent, "p", sim, 7);
    c = make(new Model, "c", p, 8);
    for (int i = 0; i < 3; ++i) {
      init[i].w = this;
      init[i].number = i;
    }
    ENSURES(sim->GetState() == S::SSK_Building);
    sim->AddService(log);
    sim->AddService(ev);
    sim->AddService(links);
    sim->AddService(sched);
    sim->AddService(time);
    sim->AddService(res);
    p->children.AddComponent(c);
    sim->AddModel(p);
    sim->AddModel(a);
  }
  ~World() {
    act = nullptr;
    delete sim;
  }
  C state(int i) const {
    switch (i) {
    case 0: return ev->state;
    case 1: return log->state;
    case 2: return links->state;
    case 3: return sched->state;
    case 4: return time->state;
    case 5: return res->state;
    case 6: return a->state;
    case 7: return p->state;
    default: return c->state;
    }
  }
  void all(C s) const {
    for (int i = 0; i < 9; ++i)
      ENSURES(state(i) == s);
  }
  void command(int k);
};
template <class B> void Part<B>::Publish(Smp::IPublication *pub) {
  ENSURES(state == C::CSK_Created && pub);
  ENSURES(number != 8 || w->p->state != C::CSK_Created);
  state = C::CSK_Publishing;
}
template <class B> void Part<B>::Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) {
  ENSURES(state == C::CSK_Publishing && l == w->log && r == w->links);
  ENSURES(number != 8 || w->p->state == C::CSK_Configured || w->p->state == C::CSK_Connected);
  state = C::CSK_Configured;
}
template <class B> void Part<B>::Connect(Smp::ISimulator *s) {
  ENSURES(state == C::CSK_Configured && s == w->sim);
  ENSURES(s->GetState() == S::SSK_Connecting || s->GetState() == S::SSK_Reconnecting);
  ENSURES(number != 8 || w->p->state == C::CSK_Connected);
  state = C::CSK_Connected;
}
template <class B> void Part<B>::Disconnect() {
  ENSURES(state == C::CSK_Connected);
  ENSURES(w->sim->GetState() == S::SSK_Exiting || w->sim->GetState() == S::SSK_Aborting);
  state = C::CSK_Disconnected;
}
void Ev::Subscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) {
  ENSURES(id == EM::SMP_PreSimTimeChangeId && ep);
  ENSURES(!pre); // the event manager refuses the second time
  pre = ep;
}
void Ev::Unsubscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) {
  ENSURES(id == EM::SMP_PreSimTimeChangeId && ep && ep == pre);
  pre = nullptr;
}
void Sched::RemoveEvent(Smp::Services::EventId id) {
  ENSURES(id == 7);
  if (!ep)
    Xsmp::Exception::throwInvalidEventId(this, id);
  ep = nullptr;
}
void Init::Execute() const {
  ENSURES(w->sim->GetState() == S::SSK_Initialising && w->ninits < 6);
  w->inits[w->ninits++] = number;
}
// every global event is emitted in its state, and follows the ones before
void Ev::Emit(Smp::Services::EventId id, Smp::Bool synchronous) {
  auto s = w->sim->GetState();
  auto last = w->last;
  ENSURES(synchronous && (last != EM::SMP_EnterExitingId || id == EM::SMP_EnterAbortingId));
  ENSURES(last != EM::SMP_EnterAbortingId);
  bool left = last == EM::SMP_LeaveInitialisingId || last == EM::SMP_LeaveExecutingId || last == EM::SMP_LeaveStoringId ||
              last == EM::SMP_LeaveRestoringId || last == EM::SMP_LeaveReconnectingId;
  bool follows = false;
  S in = s;
  switch (id) {
  case EM::SMP_LeaveConnectingId: in = S::SSK_Connecting; follows = last == 0; break;
  case EM::SMP_EnterInitialisingId:
    in = S::SSK_Initialising;
    follows = last == EM::SMP_LeaveConnectingId || last == EM::SMP_LeaveStandbyId;
    break;
  case EM::SMP_LeaveInitialisingId: in = S::SSK_Initialising; follows = last == EM::SMP_EnterInitialisingId; break;
  case EM::SMP_EnterStandbyId: in = S::SSK_Standby; follows = left; break;
  case EM::SMP_LeaveStandbyId: in = S::SSK_Standby; follows = last == EM::SMP_EnterStandbyId; break;
  case EM::SMP_EnterExecutingId: in = S::SSK_Executing; follows = last == EM::SMP_LeaveStandbyId; break;
  case EM::SMP_LeaveExecutingId: in = S::SSK_Executing; follows = last == EM::SMP_EnterExecutingId; break;
  case EM::SMP_EnterStoringId: in = S::SSK_Storing; follows = last == EM::SMP_LeaveStandbyId; break;
  case EM::SMP_LeaveStoringId: in = S::SSK_Storing; follows = last == EM::SMP_EnterStoringId; break;
  case EM::SMP_EnterRestoringId: in = S::SSK_Restoring; follows = last == EM::SMP_LeaveStandbyId; break;
  case EM::SMP_LeaveRestoringId: in = S::SSK_Restoring; follows = last == EM::SMP_EnterRestoringId; break;
  case EM::SMP_EnterReconnectingId: in = S::SSK_Reconnecting; follows = last == EM::SMP_LeaveStandbyId; break;
  case EM::SMP_LeaveReconnectingId: in = S::SSK_Reconnecting; follows = last == EM::SMP_EnterReconnectingId; break;
  case EM::SMP_EnterExitingId: in = S::SSK_Exiting; follows = last == EM::SMP_LeaveStandbyId; break;
  case EM::SMP_EnterAbortingId: follows = true; break;
  default: break;
  }
  ENSURES(follows && s == in);
  w->last = id;
  ++w->emitted;
  if (w->act)
    w->act(*w, id);
}
// the commands a user gives
void World::command(int k) {
  switch (k) {
  case 0: sim->Publish(); break;
  case 1: sim->Configure(); break;
  case 2: sim->Connect(); break;
  case 3: sim->Initialise(); break;
  case 4: sim->Run(); break;
  case 5: sim->Hold(true); break;
  case 6: sim->Hold(false); break;
  case 7: sim->Reconnect(p); break;
  case 8: sim->Exit(); break;
  default: sim->Abort(); break;
  }
}
// ... and where they lead
S expected(S s, int k) {
  switch (k) {
  case 2: return s == S::SSK_Building ? S::SSK_Standby : s;
  case 4: return s == S::SSK_Standby ? S::SSK_Executing : s;
  case 5: return s == S::SSK_Executing ? S::SSK_Standby : s;
  case 8: return s == S::SSK_Standby ? S::SSK_Exiting : s;
  case 9: return S::SSK_Aborting;
  default: return s;
  }
}
int events(S s, int k) {
  switch (k) {
  case 2: return s == S::SSK_Building ? 4 : 0;
  case 3: return s == S::SSK_Standby ? 4 : 0;
  case 4: return s == S::SSK_Standby ? 2 : 0;
  case 5: return s == S::SSK_Executing ? 2 : 0;
  case 7: return s == S::SSK_Standby ? 4 : 0;
  case 8: return s == S::SSK_Standby ? 2 : 0;
  case 9: return s != S::SSK_Aborting;
  default: return 0;
  }
}
template <int N> void histories() {
  World w;
  auto s = S::SSK_Building;
  auto c = C::CSK_Created;
  if (__spec_choose("connected")) {
    w.sim->Connect();
    s = S::SSK_Standby;
    c = C::CSK_Connected;
  }
  bool asked = false; // to hold at the next change of time
  for (int i = 0; i < N; ++i) {
    int k = below(10, "command");
    int before = w.emitted;
    w.command(k);
    ENSURES(w.emitted - before == events(s, k));
    if (s == S::SSK_Building) {
      if (k == 0 && c == C::CSK_Created)
        c = C::CSK_Publishing;
      else if (k == 1 && (c == C::CSK_Created || c == C::CSK_Publishing))
        c = C::CSK_Configured;
      else if (k == 2)
        c = C::CSK_Connected;
    } else if (s == S::SSK_Standby && k == 8)
      c = C::CSK_Disconnected;
    if (s == S::SSK_Executing)
      asked = k == 6 || (asked && k != 5);
    s = expected(s, k);
    ENSURES(w.sim->GetState() == s);
    w.all(c);
    if (s == S::SSK_Standby)
      ENSURES(!w.ev->pre);
    if (s == S::SSK_Executing)
      ENSURES((w.ev->pre != nullptr) == asked);
  }
}
} // namespace
CONTRACT_T(C25, histories_of_one, histories<1>)
CONTRACT_T(C25, histories_of_two, histories<2>)
// an abort is final, wherever it happens
CONTRACT(C25, abort_is_final) {
  World w;
  static Smp::Services::EventId when;
  static const Smp::Services::EventId ids[] = {EM::SMP_LeaveConnectingId,      EM::SMP_EnterInitialisingId,
                                               EM::SMP_LeaveInitialisingId,    EM::SMP_EnterStandbyId,
                                               EM::SMP_LeaveStandbyId,         EM::SMP_EnterExecutingId,
                                               EM::SMP_LeaveExecutingId,       EM::SMP_EnterReconnectingId,
                                               EM::SMP_LeaveReconnectingId,    EM::SMP_EnterExitingId};
  when = ids[below(10, "when")];
  w.act = [](World &w, Smp::Services::EventId id) {
    if (id == when)
      w.sim->Abort();
  };
  int k = below(5, "command");
  w.sim->Connect();
  if (k == 0)
    w.sim->Initialise();
  else if (k == 1) {
    w.sim->Run();
    w.sim->Hold(true);
  } else if (k == 2)
    w.sim->Reconnect(w.p);
  else if (k == 3)
    w.sim->Exit();
  ENSURES((w.last == EM::SMP_EnterAbortingId) == (w.sim->GetState() == S::SSK_Aborting));
  int e = w.emitted;
  if (w.sim->GetState() == S::SSK_Aborting) {
    w.command(below(9, "later"));
    ENSURES(w.emitted == e && w.sim->GetState() == S::SSK_Aborting);
  }
}
// commands given by subscribers of the global events
CONTRACT(C25, commands_within_events) {
  World w;
  static Smp::Services::EventId when;
  static int k;
  static bool taken;
  static const Smp::Services::EventId ids[] = {EM::SMP_LeaveConnectingId,   EM::SMP_EnterInitialisingId,
                                               EM::SMP_LeaveInitialisingId, EM::SMP_EnterStandbyId,
                                               EM::SMP_LeaveStandbyId,      EM::SMP_EnterExecutingId,
                                               EM::SMP_LeaveExecutingId,    EM::SMP_EnterReconnectingId,
                                               EM::SMP_LeaveReconnectingId, EM::SMP_EnterExitingId};
  int outer = below(4, "command");
  w.sim->Connect();
  when = ids[below(10, "when")];
  k = below(9, "nested");
  taken = false;
  w.act = [](World &w, Smp::Services::EventId id) {
    if (id != when || taken)
      return;
    taken = true;
    auto s = w.sim->GetState();
    int e = w.emitted;
    w.command(k);
    // the state is being left, or has just been entered
    if (id == EM::SMP_EnterStandbyId && (k == 3 || k == 7 || k == 8))
      ENSURES(w.emitted - e == events(s, k) && w.sim->GetState() == expected(s, k));
    else if (id == EM::SMP_EnterExecutingId && (k == 5 || k == 6))
      ENSURES(w.sim->GetState() == (k == 5 ? S::SSK_Standby : S::SSK_Executing));
    else
      ENSURES(w.emitted == e && w.sim->GetState() == s);
  };
  if (outer == 0) {
    w.sim->Initialise();
  } else if (outer == 1) {
    w.sim->Run();
    w.sim->Hold(true);
  } else if (outer == 2)
    w.sim->Reconnect(w.p);
  else
    w.sim->Exit();
  bool exited = outer == 3 || (taken && when == EM::SMP_EnterStandbyId && k == 8);
  ENSURES(w.sim->GetState() == (exited ? S::SSK_Exiting : S::SSK_Standby) && !w.ev->pre);
  w.all(exited ? C::CSK_Disconnected : C::CSK_Connected);
}
// the simulation is executed within SMP_EnterExecuting
CONTRACT(C25, held_while_executing) {
  World w;
  w.sim->Connect();
  static int how;
  how = below(5, "how");
  static int changes;
  changes = 0;
  w.act = [](World &w, Smp::Services::EventId id) {
    if (id != EM::SMP_EnterExecutingId)
      return;
    auto change = [&] { // of time
      ++changes;
      if (w.ev->pre)
        w.ev->pre->Execute();
    };
    if (how == 0) { // an event holds at once
      w.sim->Hold(true);
    } else if (how == 1) { // two events hold at the same time
      w.sim->Hold(false);
      w.sim->Hold(false);
      ENSURES(w.sim->GetState() == S::SSK_Executing);
      change();
    } else if (how == 2) { // ... one of them at once
      w.sim->Hold(false);
      w.sim->Hold(true);
    } else if (how == 3) {
      w.sim->Hold(false);
      change();
      w.sim->Hold(false); // too late: refused
    } else {
      change();
      ENSURES(w.sim->GetState() == S::SSK_Executing);
      w.sim->Hold(true);
      w.sim->Hold(true);
    }
    ENSURES(w.sim->GetState() == S::SSK_Standby && w.last == EM::SMP_EnterStandbyId);
    ENSURES(!w.ev->pre);
  };
  w.sim->Run();
  ENSURES(w.sim->GetState() == S::SSK_Standby && !w.ev->pre);
  // the next run is not held by the requests of this one
  w.act = nullptr;
  w.sim->Run();
  ENSURES(w.sim->GetState() == S::SSK_Executing && !w.ev->pre);
  w.sim->Hold(false);
  ENSURES(w.ev->pre);
  w.ev->pre->Execute();
  ENSURES(w.sim->GetState() == S::SSK_Standby && !w.ev->pre);
}
// running for a while
CONTRACT(C25, run_for_a_duration) {
  World w;
  w.sim->Connect();
  static int how;
  how = below(3, "how");
  w.act = [](World &w, Smp::Services::EventId id) {
    if (id != EM::SMP_EnterExecutingId)
      return;
    ENSURES(w.sched->ep);
    if (how == 0) { // the time has come
      auto *e = w.sched->ep;
      w.sched->ep = nullptr;
      e->Execute();
      ENSURES(w.ev->pre && w.sim->GetState() == S::SSK_Executing);
      w.ev->pre->Execute();
    } else if (how == 1) { // held before
      w.sim->Hold(true);
    } else { // ... at the very time
      auto *e = w.sched->ep;
      w.sched->ep = nullptr;
      e->Execute();
      w.sim->Hold(true);
    }
    ENSURES(w.sim->GetState() == S::SSK_Standby);
  };
  auto d = spec::nondet<int64_t>("duration");
  w.sim->Run(d);
  ENSURES(w.sched->at == d && w.sim->GetState() == S::SSK_Standby);
  // nothing is left behind
  ENSURES(!w.sched->ep && !w.ev->pre);
  // it is refused where Run is
  w.sim->Exit();
  w.sim->Run(d);
  ENSURES(!w.sched->ep && w.sim->GetState() == S::SSK_Exiting);
}
// entry points of the initialisation: once, in order
CONTRACT(C25, initialisation) {
  World w;
  int n = below(3, "early");
  for (int i = 0; i < n; ++i)
    w.sim->AddInitEntryPoint(&w.init[i]);
  int e = w.emitted;
  bool later = __spec_choose("later");
  if (later)
    w.act = [](World &w, Smp::Services::EventId id) {
      if (id == EM::SMP_LeaveConnectingId) // still connecting
        w.sim->AddInitEntryPoint(&w.init[2]);
      else if (id == EM::SMP_EnterInitialisingId) // too late
        w.sim->AddInitEntryPoint(&w.init[0]);
    };
  w.sim->Connect();
  ENSURES(w.emitted == e + 4 && w.ninits == n + later);
  for (int i = 0; i < n; ++i)
    ENSURES(w.inits[i] == i);
  if (later)
    ENSURES(w.inits[n] == 2);
  w.act = nullptr;
  w.ninits = 0;
  w.sim->AddInitEntryPoint(&w.init[1]);
  w.sim->AddInitEntryPoint(&w.init[0]);
  w.sim->Run();
  w.sim->AddInitEntryPoint(&w.init[2]); // no action is taken
  w.sim->Hold(true);
  ENSURES(w.ninits == 0);
  w.sim->Initialise();
  ENSURES(w.ninits >= 2 && w.inits[w.ninits - 2] == 1 && w.inits[w.ninits - 1] == 0);
}
// what is added when
CONTRACT(C25, models_and_services) {
  World w;
  int k = below(5, "state");
  auto s = S::SSK_Building;
  if (k) {
    w.sim->Connect();
    s = S::SSK_Standby;
    w.command(k == 1 ? 6 : k == 2 ? 4 : k == 3 ? 8 : 9);
    s = k == 1 ? s : k == 2 ? S::SSK_Executing : k == 3 ? S::SSK_Exiting : S::SSK_Aborting;
  }
  ENSURES(w.sim->GetState() == s);
  bool open = k < 2, service = __spec_choose("service");
  struct Service : Part<Smp::MockIService> {};
  auto *m = w.make(new Model, "m", w.sim, 6);
  auto *v = w.make(new Service, "v", w.sim, 6);
  int refused = 0;
  try {
    if (service)
      w.sim->AddService(v);
    else
      w.sim->AddModel(m);
  } catch (const Smp::InvalidSimulatorState &x) {
    ++refused;
    ENSURES(x.GetInvalidState() == s);
  }
  ENSURES(refused == !open);
  ENSURES(w.sim->GetService("v") == (open && service ? v : nullptr));
  auto *models = w.sim->GetContainer("Models");
  auto *services = w.sim->GetContainer("Services");
  ENSURES(models && services && w.sim->GetContainers()->size() == 2);
  ENSURES(models->GetCount() == 2 + (open && !service) && services->GetCount() == 6 + (open && service));
  ENSURES(models->GetComponent("a") == w.a && models->GetComponent("m") == (open && !service ? m : nullptr));
  if (open && k == 1) { // connected later on
    auto &state = service ? v->state : m->state;
    ENSURES(state == C::CSK_Created);
  }
  if (open && service)
    delete m;
  else if (open)
    delete v;
  else {
    delete m;
    delete v;
  }
}
CONTRACT(C25, standard_services) {
  World w;
  ENSURES(w.sim->GetLogger() == w.log && w.sim->GetEventManager() == w.ev && w.sim->GetLinkRegistry() == w.links);
  ENSURES(w.sim->GetScheduler() == w.sched && w.sim->GetTimeKeeper() == w.time && w.sim->GetResolver() == w.res);
  ENSURES(w.sim->GetService("ev") == w.ev && w.sim->GetService("sched") == w.sched && !w.sim->GetService("a"));
  // the first of its kind stays
  auto *another = w.make(new Res, "another", w.sim, 5);
  w.sim->AddService(another);
  ENSURES(w.sim->GetResolver() == w.res && w.sim->GetService("another") == another);
  ENSURES(w.sim->GetTypeRegistry() && !w.sim->GetParent());
}
// models that are added later are connected by Reconnect, others not touched
CONTRACT(C25, reconnect) {
  World w;
  w.sim->Connect();
  auto *m = w.make(new Model, "m", w.p, 8);
  w.p->children.AddComponent(m);
  switch (below(3, "state")) {
  case 1:
    m->Publish(new Smp::MockIPublication);
    break;
  case 2:
    m->Publish(new Smp::MockIPublication);
    m->Configure(w.log, w.links);
    break;
  default:;
  }
  if (__spec_choose("other"))
    w.sim->Reconnect(w.a);
  w.sim->Reconnect(w.p);
  w.all(C::CSK_Connected);
  ENSURES(m->state == C::CSK_Connected && w.sim->GetState() == S::SSK_Standby);
}
