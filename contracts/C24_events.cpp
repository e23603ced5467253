// The event manager: identifiers of global events, subscriptions, emission.
// @sources: src/Xsmp/Services/XsmpEventManager.cpp src-gen/Xsmp/Services/XsmpEventManagerGen.cpp src/Xsmp/Component.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp
// @flags: -I$V/smp -I$R/src-gen
// @native: interfere.cpp
// @nativeflags: -Dpthread_rwlock_rdlock=vf_rdlock -Dpthread_rwlock_wrlock=vf_wrlock -Dpthread_rwlock_unlock=vf_unlock
// @models: models_pthread.cpp models_exceptions.cpp models_ctype.cpp models_tree.cpp models_hash.cpp
// @bounded: histories.*|emit.*|stored.*|another_thread.* | two events, three entry points and at most three operations
#include "storage_common.h"
#include "lock_ghost.h"
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Services/XsmpEventManager.h>
using Xsmp::Services::XsmpEventManager;
using EM = Smp::Services::IEventManager;
namespace {
int below(int n, const char *name) {
  int i = 0;
  while (i < n - 1 && __spec_choose(name))
    ++i;
  return i;
}
const struct {
  Smp::String8 name;
  Smp::Services::EventId id;
} predefined[] = {{EM::SMP_LeaveConnecting, EM::SMP_LeaveConnectingId},
                  {EM::SMP_EnterInitialising, EM::SMP_EnterInitialisingId},
                  {EM::SMP_LeaveInitialising, EM::SMP_LeaveInitialisingId},
                  {EM::SMP_EnterStandby, EM::SMP_EnterStandbyId},
                  {EM::SMP_LeaveStandby, EM::SMP_LeaveStandbyId},
                  {EM::SMP_EnterExecuting, EM::SMP_EnterExecutingId},
                  {EM::SMP_LeaveExecuting, EM::SMP_LeaveExecutingId},
                  {EM::SMP_EnterStoring, EM::SMP_EnterStoringId},
                  {EM::SMP_LeaveStoring, EM::SMP_LeaveStoringId},
                  {EM::SMP_EnterRestoring, EM::SMP_EnterRestoringId},
                  {EM::SMP_LeaveRestoring, EM::SMP_LeaveRestoringId},
                  {EM::SMP_EnterExiting, EM::SMP_EnterExitingId},
                  {EM::SMP_EnterAborting, EM::SMP_EnterAbortingId},
                  {EM::SMP_EpochTimeChanged, EM::SMP_EpochTimeChangedId},
                  {EM::SMP_MissionTimeChanged, EM::SMP_MissionTimeChangedId},
                  {EM::SMP_EnterReconnecting, EM::SMP_EnterReconnectingId},
                  {EM::SMP_LeaveReconnecting, EM::SMP_LeaveReconnectingId},
                  {EM::SMP_PreSimTimeChange, EM::SMP_PreSimTimeChangeId},
                  {EM::SMP_PostSimTimeChange, EM::SMP_PostSimTimeChangeId}};
struct World;
struct Logger : Named<Smp::Services::MockILogger> {
  void Log(const Smp::IObject *, Smp::String8, Smp::Services::LogMessageKind) override {}
};
struct Resolver : Named<Smp::Services::MockIResolver> {
  World *w = nullptr;
  Smp::IObject *ResolveAbsolute(Smp::String8 path) override;
};
struct Sim : Named<Smp::MockISimulator> {
  Logger log;
  Resolver resolver;
  int aborted = 0;
  Smp::Services::ILogger *GetLogger() const override { return const_cast<Logger *>(&log); }
  Smp::Services::IResolver *GetResolver() const override { return const_cast<Resolver *>(&resolver); }
  void Abort() override { ++aborted; }
};
struct Entry : Named<Smp::MockIEntryPoint> {
  World *w = nullptr;
  int number = 0;
  void Execute() const override;
};
struct World {
  Sim sim;
  XsmpEventManager m;
  Entry e[3];
  Smp::Services::EventId id[2];
  // who is subscribed to which event, in order
  int who[2][3] = {}, n[2] = {};
  // what has been executed since the last look
  int run[8] = {}, runs = 0;
  void (*act)(World &, int which) = nullptr;
  World() : m("events", "", nullptr, &sim) {
    static const char *names[] = {"e0", "e1", "e2"};
    for (int i = 0; i < 3; ++i) {
      e[i].w = this;
      e[i].number = i;
      e[i].name_ = names[i];
    }
    sim.resolver.w = this;
  }
  void ids() {
    id[0] = m.QueryEventId("user");
    id[1] = EM::SMP_EpochTimeChangedId;
  }
  int position(int v, int k) const {
    for (int i = 0; i < n[v]; ++i)
      if (who[v][i] == k)
        return i;
    return -1;
  }
  void subscribe(int v, int k) {
    bool known = position(v, k) >= 0;
    try {
      m.Subscribe(id[v], &e[k]);
      ENSURES(!known);
      who[v][n[v]++] = k;
    } catch (const Smp::Services::EntryPointAlreadySubscribed &x) {
      ENSURES(known && x.GetEntryPoint() == &e[k]);
      ENSURES(text_is(x.GetEventName(), v ? EM::SMP_EpochTimeChanged : "user"));
    }
  }
  void unsubscribe(int v, int k) {
    int i = position(v, k);
    try {
      m.Unsubscribe(id[v], &e[k]);
      ENSURES(i >= 0);
      for (--n[v]; i < n[v]; ++i)
        who[v][i] = who[v][i + 1];
    } catch (const Smp::Services::EntryPointNotSubscribed &x) {
      ENSURES(i < 0 && x.GetEntryPoint() == &e[k]);
      ENSURES(text_is(x.GetEventName(), v ? EM::SMP_EpochTimeChanged : "user"));
    }
  }
  void emit(int v) {
    runs = 0;
    m.Emit(id[v]);
    ENSURES(runs == n[v]);
    for (int i = 0; i < runs; ++i)
      ENSURES(run[i] == who[v][i]);
  }
};
Smp::IObject *Resolver::ResolveAbsolute(Smp::String8 path) {
  for (auto &e : w->e)
    if (Xsmp::Helper::GetPath(&e) == path)
      return &e;
  ENSURES(!"a path that is known");
  return nullptr;
}
void Entry::Execute() const {
  ENSURES(ghost::held() == 0 && w->runs < 8);
  w->run[w->runs++] = number;
  if (w->act)
    w->act(*w, number);
}
template <int N> void histories() {
  World w;
  w.ids();
  w.subscribe(0, 0);
  for (int i = 0; i < N; ++i)
    switch (below(3, "operation")) {
    case 0: {
      int v = below(2, "event");
      w.subscribe(v, below(3, "entry"));
      break;
    }
    case 1: {
      int v = below(2, "event");
      w.unsubscribe(v, below(2, "entry"));
      break;
    }
    default:
      w.emit(below(2, "event"));
    }
  w.emit(0);
  w.emit(1);
}
} // namespace
// all predefined events have their names and numbers
CONTRACT(C24, predefined_events) {
  World w;
  for (auto &p : predefined)
    ENSURES(w.m.QueryEventId(p.name) == p.id);
}
// one name, one number
CONTRACT(C24, query_similar_names) {
  World w;
  auto &p = predefined[below(4, "event") * 6];
  size_t n = strlen(p.name), m = n - 1 + size_t(below(3, "length"));
  char *name = new char[m + 1];
  for (size_t i = 0; i < m; ++i)
    name[i] = i < n ? p.name[i] : 'x';
  name[m] = 0;
  char c = spec::nondet<char>("character");
  size_t at = __spec_choose("at") ? 0 : m - 1;
  REQUIRES(c != 0);
  name[at] = c;
  bool same = m == n && c == p.name[at];
  std::string copy = name;
  auto id = w.m.QueryEventId(name);
  if (same)
    ENSURES(id == p.id);
  else if (m != n || at == 0)
    ENSURES(id > EM::SMP_PostSimTimeChangeId);
  ENSURES(id >= 1);
  delete[] name; // the caller's text is its own
  ENSURES(w.m.QueryEventId(copy.c_str()) == id && w.m.QueryEventId(p.name) == p.id);
}
CONTRACT(C24, names_are_distinct) {
  World w;
  auto u = w.m.QueryEventId("u"), v = w.m.QueryEventId("v"), x = w.m.QueryEventId("u ");
  ENSURES(u != v && v != x && u != x);
  ENSURES(u > EM::SMP_PostSimTimeChangeId && v > EM::SMP_PostSimTimeChangeId && x > EM::SMP_PostSimTimeChangeId);
  ENSURES(w.m.QueryEventId("u") == u && w.m.QueryEventId("v") == v && w.m.QueryEventId("u ") == x);
}
CONTRACT(C24, query_refuses_no_name) {
  World w;
  int refused = 0;
  try {
    w.m.QueryEventId(__spec_choose("null") ? nullptr : "");
  } catch (const Smp::Services::InvalidEventName &) {
    ++refused;
  }
  ENSURES(refused == 1);
}
// numbers of no event
CONTRACT(C24, unknown_id) {
  World w;
  auto id = spec::nondet<Smp::Services::EventId>("id");
  bool user = __spec_choose("user");
  Smp::Services::EventId mine = user ? w.m.QueryEventId("user") : 1;
  REQUIRES((id < 1 || id > EM::SMP_PostSimTimeChangeId) && id != mine);
  int refused = 0, asked = below(3, "operation");
  try {
    if (asked == 0)
      w.m.Subscribe(id, &w.e[0]);
    else if (asked == 1)
      w.m.Unsubscribe(id, &w.e[0]);
    else
      w.m.Emit(id);
  } catch (const Smp::Services::InvalidEventId &e) {
    refused += e.GetInvalidEventId() == id;
  }
  ENSURES(refused == 1 && w.runs == 0);
}
CONTRACT_T(C24, histories_of_two, histories<2>)
CONTRACT_T(C24, histories_of_three, histories<3>)
// what entry points do while they are executed
CONTRACT(C24, emit_while_emitting) {
  World w;
  w.ids();
  w.subscribe(0, 0);
  w.subscribe(0, 1);
  static int what, actor;
  what = below(6, "what");
  actor = below(2, "actor");
  w.act = [](World &w, int k) {
    if (k != actor)
      return;
    w.act = nullptr;
    switch (what) {
    case 0: // gives up itself
      w.m.Unsubscribe(w.id[0], &w.e[k]);
      break;
    case 1: // another one joins
      w.m.Subscribe(w.id[0], &w.e[2]);
      break;
    case 2: // another event is emitted
      w.m.Subscribe(w.id[1], &w.e[2]);
      w.m.Emit(w.id[1]);
      ENSURES(w.runs && w.run[w.runs - 1] == 2);
      --w.runs;
      break;
    case 3: // events are added
      w.m.QueryEventId("another");
      break;
    case 4: // the table of subscriptions grows
      w.m.Subscribe(w.id[1], &w.e[0]);
      break;
    default: // fails: the others are told nevertheless
      throw 1;
    }
  };
  w.runs = 0;
  w.m.Emit(w.id[0], __spec_choose("synchronous"));
  // those that were subscribed are executed once, in order
  ENSURES(w.runs >= 2 && w.run[0] == 0 && w.run[1] == 1 && w.runs <= 2 + (what == 1));
  ENSURES(w.sim.aborted == (what == 5));
  if (what == 0) {
    w.n[0] = 1;
    w.who[0][0] = 1 - actor;
  } else if (what == 1)
    w.who[0][w.n[0]++] = 2;
  w.emit(0);
}
// a later subscriber that an earlier one removes has not been executed yet
CONTRACT(C24, emit_removes_others) {
  World w;
  w.ids();
  w.subscribe(0, 0);
  w.subscribe(0, 1);
  w.subscribe(0, 2);
  w.act = [](World &w, int k) {
    if (k == 0)
      w.m.Unsubscribe(w.id[0], &w.e[1]);
    w.act = nullptr;
  };
  w.runs = 0;
  w.m.Emit(w.id[0]);
  ENSURES(w.runs >= 2 && w.run[0] == 0 && w.run[w.runs - 1] == 2);
  w.n[0] = 2;
  w.who[0][1] = 2;
  w.emit(0);
}
// another thread asks for the same event, and uses it
CONTRACT(C24, another_thread_queries) {
  World w;
  static World *g;
  static Smp::Services::EventId other;
  g = &w;
  other = 0;
  ghost::g_interfere = [] {
    if (ghost::held() || other || !__spec_choose("acts"))
      return;
    auto *mine = ghost::g_interfere;
    ghost::g_interfere = nullptr;
    other = g->m.QueryEventId("user");
    g->m.Subscribe(other, &g->e[1]);
    g->m.Emit(other);
    ENSURES(g->runs == 1);
    ghost::g_interfere = mine;
  };
  w.id[0] = w.m.QueryEventId("user");
  w.subscribe(0, 0);
  ghost::g_interfere = nullptr;
  ENSURES(!other || w.id[0] == other);
  w.runs = 0;
  w.m.Emit(w.id[0]);
  ENSURES(w.runs == 1 + (other != 0));
}
// what was stored is restored, also over other events and subscriptions
CONTRACT(C24, stored_and_restored) {
  World w;
  w.ids();
  if (__spec_choose("second"))
    w.subscribe(0, 1);
  w.subscribe(0, 0);
  if (__spec_choose("third"))
    w.subscribe(1, 2);
  StateVector v;
  Writer out(v);
  w.m.Store(&out);
  static World *same;
  static int later;
  later = below(4, "later");
  if (later == 1) {
    w.m.Unsubscribe(w.id[0], &w.e[0]);
  } else if (later == 2) {
    w.m.Subscribe(w.m.QueryEventId("later"), &w.e[0]);
  } else if (later == 3) {
    w.m.Subscribe(EM::SMP_EnterStoringId, &w.e[0]);
  }
  Reader in(v);
  w.m.Restore(&in);
  ENSURES(v.pos == v.size && ghost::held() == 0);
  w.emit(0);
  w.emit(1);
  if (later == 3) {
    w.runs = 0;
    w.m.Emit(EM::SMP_EnterStoringId);
    ENSURES(w.runs == 0);
  }
  ENSURES(w.m.QueryEventId("user") == w.id[0]);
  (void)same;
}
CONTRACT(C24, restored_elsewhere) {
  StateVector v;
  Smp::Services::EventId id;
  {
    World w;
    w.m.QueryEventId("first");
    w.ids();
    id = w.id[0];
    w.subscribe(0, 2);
    w.subscribe(0, 1);
    Writer out(v);
    w.m.Store(&out);
  }
  World w;
  if (__spec_choose("other"))
    w.m.Subscribe(w.m.QueryEventId("other"), &w.e[0]);
  Reader in(v);
  w.m.Restore(&in);
  w.ids();
  ENSURES(w.id[0] == id);
  w.n[0] = 2;
  w.who[0][0] = 2;
  w.who[0][1] = 1;
  w.emit(0);
  w.subscribe(0, 0);
  w.unsubscribe(0, 2);
  w.emit(0);
  auto fresh = w.m.QueryEventId("fresh");
  ENSURES(fresh != id && fresh != w.m.QueryEventId("first"));
  w.m.Subscribe(fresh, &w.e[0]);
}
