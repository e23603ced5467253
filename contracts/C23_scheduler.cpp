// Scheduled events are executed at their time, in order, as often as asked.
// @sources: src/Xsmp/Services/XsmpScheduler.cpp src-gen/Xsmp/Services/XsmpSchedulerGen.cpp src/Xsmp/Component.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp
// @flags: -I$V/smp -I$R/src-gen
// @native: threads.cpp
// @models: models_pthread.cpp models_thread.cpp models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: run.*|hold.*|zulu_run.*|during.*|stored.* | at most three events with times, cycles and repeats of at most three steps
#include "smp_common.h"
#include "storage_common.h"
#include "thread_ghost.h"
#include "lock_ghost.h"
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Xsmp/Services/XsmpScheduler.h>
using Xsmp::Services::XsmpScheduler;
using EM = Smp::Services::IEventManager;
using TK = Smp::Services::TimeKind;
namespace {
constexpr int64_t FOREVER = INT64_MAX;
// small enough for sums of a few
int64_t small(const char *n) {
  auto v = spec::nondet<int64_t>(n);
  REQUIRES(v >= INT64_MIN / 8 && v <= INT64_MAX / 8);
  return v;
}
int below(int n, const char *name) {
  int i = 0;
  while (i < n - 1 && __spec_choose(name))
    ++i;
  return i;
}
struct World;
struct Time : Named<Smp::Services::MockITimeKeeper> {
  World *w = nullptr;
  int64_t now = 0, epoch = 0, start = 0, zulu = 0;
  bool changing = false;
  int64_t changed = 0;
  Smp::Duration GetSimulationTime() const override { return now; }
  Smp::DateTime GetEpochTime() const override { return epoch; }
  Smp::Duration GetMissionTime() const override { return epoch - start; }
  Smp::DateTime GetZuluTime() const override { return zulu; }
  void SetSimulationTime(Smp::Duration t) override;
};
struct Events : Named<Smp::Services::MockIEventManager> {
  World *w = nullptr;
  const Smp::IEntryPoint *enter = nullptr, *leave = nullptr;
  int pre = 0, post = 0;
  void (*on_pre)(World &) = nullptr, (*on_post)(World &) = nullptr;
  void Subscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) override {
    ENSURES(id == EM::SMP_EnterExecutingId || id == EM::SMP_LeaveExecutingId);
    auto &slot = id == EM::SMP_EnterExecutingId ? enter : leave;
    ENSURES(!slot);
    slot = ep;
  }
  void Emit(Smp::Services::EventId id, Smp::Bool) override;
};
struct Logger : Named<Smp::Services::MockILogger> {
  void Log(const Smp::IObject *, Smp::String8, Smp::Services::LogMessageKind) override {}
};
struct Resolver : Named<Smp::Services::MockIResolver> {
  World *w = nullptr;
  Smp::IObject *ResolveAbsolute(Smp::String8 path) override;
};
struct Sim : Named<Smp::MockISimulator> {
  World *w = nullptr;
  Resolver resolver;
  Time time;
  Events ev;
  Logger log;
  int held = 0, aborted = 0;
  Smp::SimulatorStateKind state = Smp::SimulatorStateKind::SSK_Standby;
  Smp::Services::IEventManager *GetEventManager() const override { return const_cast<Events *>(&ev); }
  Smp::Services::ITimeKeeper *GetTimeKeeper() const override { return const_cast<Time *>(&time); }
  Smp::Services::ILogger *GetLogger() const override { return const_cast<Logger *>(&log); }
  Smp::Services::IResolver *GetResolver() const override { return const_cast<Resolver *>(&resolver); }
  Smp::SimulatorStateKind GetState() const override { return state; }
  void Hold(Smp::Bool immediate) override;
  void Abort() override { ++aborted; }
};
struct Entry : Named<Smp::MockIEntryPoint> {
  World *w = nullptr;
  int number = 0;
  void Execute() const override;
};
// a scheduler with what it needs, and a record of what it executes
struct World {
  Sim sim;
  XsmpScheduler s;
  Entry e[4];
  // what is due, as the documentation tells
  struct Due {
    bool live, immediate, moved;
    int64_t id, time, cycle, repeat;
  } d[4] = {};
  int n = 0, running = -1;
  void (*act)(World &, int which) = nullptr;
  bool executes = true;
  void (*zulu)(World &, int which) = nullptr;
  World() : s("scheduler", "", nullptr, &sim) {
    ghost::g_uncontended = true;
    ghost::g_steady = 5000000000;
    ghost::g_joined = 0;
    ghost::g_wait = nullptr;
    ghost::g_block = nullptr;
    sim.w = this;
    sim.resolver.w = this;
    sim.time.w = this;
    sim.ev.w = this;
    for (int i = 0; i < 4; ++i) {
      e[i].w = this;
      e[i].number = i;
      static const char *names[] = {"e0", "e1", "e2", "e3"};
      e[i].name_ = names[i];
    }
    Smp::MockIPublication pub;
    s.Publish(&pub);
    s.Configure(nullptr, nullptr);
  }
  void connect() {
    s.Connect(&sim);
    ENSURES(sim.ev.enter && sim.ev.leave && ghost::g_thread);
  }
  int first() const {
    int best = -1;
    for (int i = 0; i < 4; ++i)
      if (d[i].live && (best < 0 || (d[i].immediate && !d[best].immediate) ||
                        (d[i].immediate == d[best].immediate &&
                         (d[i].time < d[best].time || (d[i].time == d[best].time && d[i].id < d[best].id)))))
        best = i;
    return best;
  }
  // the event that was executed is due again, or gone
  void settle() {
    if (running < 0)
      return;
    auto &r = d[running];
    running = -1;
    bool last = r.repeat == 0;
    if (r.repeat > 0)
      --r.repeat;
    if (!r.live || r.moved)
      r.moved = false;
    else if (last)
      r.live = false;
    else
      r.time += r.cycle;
  }
  void execute(int k);
  // the simulator executes until it is held
  void run() {
    sim.state = Smp::SimulatorStateKind::SSK_Executing;
    s._EnterExecuting();
    sim.state = Smp::SimulatorStateKind::SSK_Standby;
    settle();
    ENSURES(sim.held == 1 && !sim.time.changing && s.GetCurrentEventId() == -1);
    ENSURES(sim.ev.pre == sim.ev.post && sim.ev.pre == sim.time.changed);
    sim.held = 0;
    int64_t next = FOREVER;
    for (auto &e : d)
      if (e.live && !e.immediate && e.time < next)
        next = e.time;
    ENSURES(s.GetNextScheduledEventTime() == next);
  }
  // ... until nothing is due
  void run_all() {
    while (sim.time.now != FOREVER)
      run();
    ENSURES(first() < 0);
    for (auto &e : d)
      if (e.id) {
        int gone = 0;
        try {
          s.RemoveEvent(e.id - 1);
        } catch (const Smp::Services::InvalidEventId &) {
          ++gone;
        }
        ENSURES(gone == 1);
      }
  }
};
Smp::IObject *Resolver::ResolveAbsolute(Smp::String8 path) {
  for (auto &e : w->e)
    if (Xsmp::Helper::GetPath(&e) == path)
      return &e;
  for (auto *e : *w->s.GetEntryPoints())
    if (Xsmp::Helper::GetPath(e) == path)
      return e;
  ENSURES(!"a path that is known");
  return nullptr;
}
void Time::SetSimulationTime(Smp::Duration t) {
  ENSURES(changing && t >= now && t <= w->s.GetNextScheduledEventTime());
  epoch = int64_t(uint64_t(epoch) + uint64_t(t) - uint64_t(now));
  now = t;
  ++changed;
}
void Events::Emit(Smp::Services::EventId id, Smp::Bool) {
  if (id == EM::SMP_PreSimTimeChangeId) {
    ENSURES(!w->sim.time.changing);
    w->sim.time.changing = true;
    ++pre;
    if (on_pre)
      on_pre(*w);
  } else {
    ENSURES(id == EM::SMP_PostSimTimeChangeId && w->sim.time.changing);
    w->sim.time.changing = false;
    ++post;
    if (on_post)
      on_post(*w);
  }
}
void Sim::Hold(Smp::Bool) {
  ++held;
  w->s._LeaveExecuting();
}
void World::execute(int k) {
  settle();
  ENSURES(executes && !sim.time.changing && first() == k);
  auto &e = d[k];
  ENSURES(s.GetCurrentEventId() == e.id - 1);
  ENSURES(e.immediate || e.time == sim.time.now);
  e.immediate = false;
  running = k;
  ++n;
  if (act)
    act(*this, k);
}
void Entry::Execute() const {
  if (w->zulu)
    w->zulu(*w, number);
  else
    w->execute(number);
}
enum Form : int { SIMULATION, MISSION, EPOCH, ZULU, IMMEDIATE };
int64_t post(World &w, Form f, const Smp::IEntryPoint *e, int64_t t, int64_t cycle = 0, int64_t repeat = 0) {
  switch (f) {
  case SIMULATION: return w.s.AddSimulationTimeEvent(e, t, cycle, repeat);
  case MISSION: return w.s.AddMissionTimeEvent(e, t, cycle, repeat);
  case EPOCH: return w.s.AddEpochTimeEvent(e, t, cycle, repeat);
  case ZULU: return w.s.AddZuluTimeEvent(e, t, cycle, repeat);
  default: return w.s.AddImmediateEvent(e);
  }
}
void move(World &w, Form f, int64_t id, int64_t t) {
  switch (f) {
  case SIMULATION: return w.s.SetEventSimulationTime(id, t);
  case MISSION: return w.s.SetEventMissionTime(id, t);
  case EPOCH: return w.s.SetEventEpochTime(id, t);
  default: return w.s.SetEventZuluTime(id, t);
  }
}
// simulation time of a time given in the form
int64_t when(World &w, Form f, int64_t t) {
  auto &k = w.sim.time;
  return f == SIMULATION ? k.now + t : f == MISSION ? k.now + (t - (k.epoch - k.start)) : k.now + (t - k.epoch);
}
// ids are kept one up: 0 is none
void plan(World &w, int k, Form f, int64_t t, int64_t cycle = 0, int64_t repeat = 0) {
  auto id = post(w, f, &w.e[k], t, cycle, repeat);
  w.d[k] = {true, f == IMMEDIATE, false, id + 1, f == IMMEDIATE ? 0 : when(w, f, t), cycle, repeat};
}
void arbitrary_time(World &w) {
  auto &k = w.sim.time;
  k.now = small("now");
  k.epoch = small("epoch");
  k.start = small("start");
  k.zulu = small("zulu");
  REQUIRES(k.now >= 0);
}
template <Form F> void add() {
  World w;
  arbitrary_time(w);
  ENSURES(w.s.GetNextScheduledEventTime() == FOREVER && w.s.GetCurrentEventId() == -1);
  auto t = small("t"), cycle = small("cycle");
  auto repeat = spec::nondet<int64_t>("repeat");
  bool past = F == ZULU ? t < w.sim.time.zulu : when(w, F, t) < w.sim.time.now;
  bool bad = repeat != 0 && cycle <= 0;
  int refused = 0;
  int64_t id = -1;
  try {
    id = post(w, F, &w.e[0], t, cycle, repeat);
  } catch (const Smp::Services::InvalidEventTime &e) {
    refused = 1;
    ENSURES(past && e.GetSender() == &w.s);
  } catch (const Smp::Services::InvalidCycleTime &e) {
    refused = 1;
    ENSURES(bad && e.GetSender() == &w.s);
  }
  ENSURES(refused == (past || bad));
  bool waits = !refused && F != ZULU;
  ENSURES(w.s.GetNextScheduledEventTime() == (waits ? when(w, F, t) : FOREVER));
  if (refused)
    return;
  auto second = post(w, F, &w.e[0], t, cycle, repeat);
  ENSURES(second != id);
  w.s.RemoveEvent(id);
  ENSURES(w.s.GetNextScheduledEventTime() == (waits ? when(w, F, t) : FOREVER));
  w.s.RemoveEvent(second);
  ENSURES(w.s.GetNextScheduledEventTime() == FOREVER);
  int unknown = 0;
  try {
    w.s.RemoveEvent(id);
  } catch (const Smp::Services::InvalidEventId &e) {
    ++unknown;
    ENSURES(e.GetSender() == &w.s);
  }
  ENSURES(unknown == 1);
}
template <Form F> void move_event() {
  World w;
  arbitrary_time(w);
  auto t = small("t"), t2 = small("t2");
  REQUIRES(F == ZULU ? t >= w.sim.time.zulu : when(w, F, t) >= w.sim.time.now);
  auto posted = Form(below(5, "posted"));
  if (posted != F)
    t = posted == SIMULATION ? 0 : posted == MISSION ? w.sim.time.GetMissionTime() : posted == EPOCH ? w.sim.time.epoch : w.sim.time.zulu;
  auto id = post(w, posted, &w.e[0], t);
  auto before = w.s.GetNextScheduledEventTime();
  auto other = spec::nondet<int64_t>("other");
  REQUIRES(other != id && other != -2);
  if (__spec_choose("unknown"))
    posted = Form(-1);
  // an immediate event is a simulation time event at the current time
  bool match = posted == F || (F == SIMULATION && posted == IMMEDIATE);
  int refused = 0;
  try {
    move(w, F, posted == Form(-1) ? other : id, t2);
  } catch (const Smp::Services::InvalidEventId &e) {
    refused = 1;
    ENSURES(e.GetSender() == &w.s);
    ENSURES(w.s.GetNextScheduledEventTime() == before);
  }
  ENSURES(refused == !match);
  if (refused)
    return;
  bool past = F == ZULU ? t2 < w.sim.time.zulu : when(w, F, t2) < w.sim.time.now;
  ENSURES(w.s.GetNextScheduledEventTime() == (past || F == ZULU ? FOREVER : when(w, F, t2)));
  int unknown = 0;
  try {
    w.s.RemoveEvent(id);
  } catch (const Smp::Services::InvalidEventId &) {
    ++unknown;
  }
  ENSURES(unknown == past && w.s.GetNextScheduledEventTime() == FOREVER);
}
} // namespace
CONTRACT_T(C23, add_simulation_time, add<SIMULATION>)
CONTRACT_T(C23, add_mission_time, add<MISSION>)
CONTRACT_T(C23, add_epoch_time, add<EPOCH>)
CONTRACT_T(C23, add_zulu_time, add<ZULU>)
CONTRACT_T(C23, move_simulation_time, move_event<SIMULATION>)
CONTRACT_T(C23, move_mission_time, move_event<MISSION>)
CONTRACT_T(C23, move_epoch_time, move_event<EPOCH>)
CONTRACT_T(C23, move_zulu_time, move_event<ZULU>)
namespace {
template <Form form> void cycle_and_repeat() {
  World w;
  auto cycle = small("cycle");
  auto repeat = spec::nondet<int64_t>("repeat");
  REQUIRES(repeat == 0 || cycle > 0);
  auto id = post(w, form, &w.e[0], 0, cycle, repeat);
  if (form == IMMEDIATE)
    cycle = 0, repeat = 0;
  auto before = w.s.GetNextScheduledEventTime();
  for (int step = 0; step < 2; ++step) {
    bool unknown = __spec_choose("unknown");
    auto target = unknown ? id + 1 : id;
    bool set_cycle = __spec_choose("cycle");
    auto v = small("value");
    bool bad = set_cycle ? repeat != 0 && v <= 0 : v != 0 && cycle <= 0;
    int wrong_id = 0, wrong_cycle = 0;
    try {
      if (set_cycle)
        w.s.SetEventCycleTime(target, v);
      else
        w.s.SetEventRepeat(target, v);
    } catch (const Smp::Services::InvalidEventId &e) {
      ++wrong_id;
      ENSURES(e.GetSender() == &w.s);
    } catch (const Smp::Services::InvalidCycleTime &e) {
      ++wrong_cycle;
      ENSURES(e.GetSender() == &w.s);
    }
    ENSURES(wrong_id == unknown && wrong_cycle == (!unknown && bad));
    if (!wrong_id && !wrong_cycle)
      (set_cycle ? cycle : repeat) = v;
  }
  ENSURES(w.s.GetNextScheduledEventTime() == before);
}
} // namespace
CONTRACT_T(C23, change_simulation_time, cycle_and_repeat<SIMULATION>)
CONTRACT_T(C23, change_mission_time, cycle_and_repeat<MISSION>)
CONTRACT_T(C23, change_epoch_time, cycle_and_repeat<EPOCH>)
CONTRACT_T(C23, change_zulu_time, cycle_and_repeat<ZULU>)
CONTRACT_T(C23, change_immediate, cycle_and_repeat<IMMEDIATE>)
CONTRACT(C23, target_speed) {
  World w;
  auto v = spec::nondet<double>("speed");
  REQUIRES(v == v);
  w.s.SetTargetSpeed(v);
  ENSURES(w.s.GetTargetSpeed() == (v < 0.01 ? 0.01 : v > 100. ? 100. : v));
}


namespace {
template <int N, Form FIRST> void run_events() {
  World w;
  for (int i = 0; i < N; ++i) {
    auto f = i == 0 ? FIRST : N == 2 ? Form(below(2, "form") * 2) : __spec_choose("simulation") ? SIMULATION : IMMEDIATE;
    int64_t t = f == IMMEDIATE ? 0 : below(3, "time") * 1000;
    int64_t repeat = N == 3 ? 0 : below(3 - i, "repeat");
    plan(w, i, f, t, repeat ? 1000 : 0, repeat);
  }
  w.run_all();
}
} // namespace
CONTRACT_T(C23, run_two_simulation, run_events<2, SIMULATION>)
CONTRACT_T(C23, run_two_mission, run_events<2, MISSION>)
CONTRACT_T(C23, run_two_epoch, run_events<2, EPOCH>)
CONTRACT_T(C23, run_three_simulation, run_events<3, SIMULATION>)
CONTRACT_T(C23, run_three_immediate, run_events<3, IMMEDIATE>)
namespace {
// an executing event changes what is due
template <int N> void change(World &w, int k) {
  if (k != 0 || w.n > 10)
    return;
  auto now = w.sim.time.now;
  w.n += 10;
  for (int i = 0; i < N; ++i) {
    int what = below(5, "what");
    if (what == 0) {
      if (!w.sim.held)
        w.sim.Hold(true);
      continue;
    }
    if (what == 1) {
      int f = below(3, "added");
      if (!w.d[2].live)
        plan(w, 2, f == 0 ? IMMEDIATE : f == 1 ? SIMULATION : MISSION, f == 2 ? w.sim.time.GetMissionTime() + 1000 : 0);
      continue;
    }
    int target = __spec_choose("other");
    auto &e = w.d[target];
    bool known = e.live;
    int refused = 0;
    try {
      if (what == 2) {
        w.s.RemoveEvent(e.id - 1);
        if (target == 0 && !e.moved)
          e.repeat = 0; // it is removed after it
        else if (target == 0)
          e.repeat = 0, e.moved = false;
        else
          e.live = false;
      } else {
        int64_t t = what == 3 ? -1 : below(2, "by") * 1000;
        // the order of what is moved to now is left open
        REQUIRES(what == 3 || target != 0 || t != 0 || !w.d[1].live || w.d[1].time != now);
        w.s.SetEventSimulationTime(e.id - 1, t);
        if (t < 0)
          e.live = e.moved = false;
        else {
          e.immediate = false;
          e.time = now + t;
          e.moved = target == 0;
        }
      }
    } catch (const Smp::Services::InvalidEventId &) {
      ++refused;
    }
    ENSURES(refused == !known);
  }
}
template <int WHERE, int N> void during() {
  World w;
  w.act = &change<N>;
  bool immediate = WHERE >= 4 ? true : false;
  int64_t repeat = below(2, "repeat");
  if (immediate)
    plan(w, 0, IMMEDIATE, 0);
  else
    plan(w, 0, SIMULATION, 1000, repeat ? 1000 : 0, repeat);
  int other = WHERE % 4;
  plan(w, 1, other == 0 ? IMMEDIATE : SIMULATION, other * 1000 - 1000);
  w.run_all();
}
} // namespace
CONTRACT_T(C23, during_other_gone, during<1, 1>)
CONTRACT_T(C23, during_twice_other_gone, during<1, 2>)
CONTRACT_T(C23, during_other_now, during<2, 1>)
CONTRACT_T(C23, during_twice_other_now, during<2, 2>)
CONTRACT_T(C23, during_other_later, during<3, 1>)
CONTRACT_T(C23, during_twice_other_later, during<3, 2>)
CONTRACT_T(C23, during_immediate_other_immediate, during<4, 1>)
CONTRACT_T(C23, during_twice_immediate_other_immediate, during<4, 2>)
CONTRACT_T(C23, during_immediate_other_now, during<5, 1>)
CONTRACT_T(C23, during_twice_immediate_other_now, during<5, 2>)
CONTRACT_T(C23, during_immediate_other_later, during<6, 1>)
CONTRACT_T(C23, during_twice_immediate_other_later, during<6, 2>)
namespace {
// handlers of the time change add events
template <bool PRE> void added() {
  World w;
  static int64_t by;
  by = below(4, "by") * 500;
  auto add = [](World &w) {
    if (w.d[1].id)
      return;
    w.settle();
    plan(w, 1, by == 1500 ? IMMEDIATE : SIMULATION, by == 1500 ? 0 : by);
  };
  (PRE ? w.sim.ev.on_pre : w.sim.ev.on_post) = add;
  int64_t first = below(2, "first") * 1000;
  plan(w, 0, SIMULATION, first);
  plan(w, 2, SIMULATION, 1000);
  w.run_all();
}
} // namespace
CONTRACT_T(C23, added_before_change, added<true>)
CONTRACT_T(C23, added_after_change, added<false>)
namespace {
// simulation time does not run ahead of the target speed
struct Pace {
  World *w;
  int64_t took, zero;
  int speed; // in percent
  int64_t waited;
  bool stop;
} pace;
template <int> void target() {
  World w;
  pace = {&w, 0, 1000000, 0, 0, false};
  static const double speeds[] = {0.01, 0.5, 1, 2, 100};
  static const int64_t percent[] = {1, 50, 100, 200, 10000};
  int k = below(5, "speed");
  w.s.SetTargetSpeed(speeds[k]);
  pace.speed = percent[k];
  w.sim.time.zulu = pace.zero;
  pace.took = below(3, "took") * 70000;
  ghost::g_wait = [](long ns) {
    auto &w = *pace.w;
    pace.waited += ns;
    if (w.first() < 0 && w.running < 0) {
      // nothing but the end of time is left
      ENSURES(ns > 3600L * 24 * 365 * 1000000000 / 2);
      w.sim.Hold(true);
      return true;
    }
    w.sim.time.zulu += ns;
    return false;
  };
  w.act = [](World &w, int) {
    auto due = pace.zero + w.sim.time.now * 100 / pace.speed;
    auto before = w.sim.time.zulu;
    ENSURES(before >= due);
    // it is waited no longer than that
    if (pace.waited)
      ENSURES(before == due);
    pace.waited = 0;
    w.sim.time.zulu += pace.took;
    if (pace.stop && w.n == 1)
      w.sim.Hold(true);
  };
  pace.stop = __spec_choose("stop");
  plan(w, 0, SIMULATION, below(2, "first") * 10000, 10000, 1);
  plan(w, 1, SIMULATION, below(3, "second") * 10000);
  w.sim.state = Smp::SimulatorStateKind::SSK_Executing;
  w.s._EnterExecuting();
  if (pace.stop) {
    ENSURES(w.sim.held == 1);
    w.sim.held = 0;
    // time that passes while standing by is not caught up
    w.sim.time.zulu += 1000000000;
    pace.zero = w.sim.time.zulu - w.sim.time.now * 100 / pace.speed;
    w.s._EnterExecuting();
  }
  w.settle();
  ENSURES(w.n == 3 && w.sim.held == 1 && w.first() < 0);
}
} // namespace
CONTRACT_T(C23, run_target_speed, target<0>)
namespace {
// zulu events are executed by a thread of their own
World *zulu_world;
int64_t zulu_id[3];
bool zulu_live[3];
int64_t zulu_time[3], zulu_repeat[3];
int zulu_running, zulu_count;
int zulu_what, zulu_target;
void zulu_settle() {
  if (zulu_running < 0)
    return;
  int k = zulu_running;
  zulu_running = -1;
  if (!zulu_live[k])
    return;
  if (zulu_repeat[k]-- == 0)
    zulu_live[k] = false;
  else
    zulu_time[k] += 1000;
}
int zulu_first() {
  int best = -1;
  for (int i = 0; i < 3; ++i)
    if (zulu_live[i] && (best < 0 || zulu_time[i] < zulu_time[best]))
      best = i;
  return best;
}
void zulu_post(int k, int64_t t, int64_t repeat) {
  zulu_id[k] = zulu_world->s.AddZuluTimeEvent(&zulu_world->e[k], t, repeat ? 1000 : 0, repeat);
  zulu_live[k] = true;
  zulu_time[k] = t;
  zulu_repeat[k] = repeat;
}
void zulu_act(World &w, int k) {
  zulu_settle();
  auto &now = w.sim.time.zulu;
  ENSURES(k == zulu_first() && zulu_time[k] <= now);
  ENSURES(w.sim.state == Smp::SimulatorStateKind::SSK_Standby || w.sim.state == Smp::SimulatorStateKind::SSK_Executing);
  ENSURES(w.s.GetCurrentEventId() == zulu_id[k]);
  zulu_running = k;
  if (zulu_count++ || k != 0)
    return;
  // the first one changes what is due
  int t = zulu_target;
  bool known = zulu_live[t];
  int refused = 0;
  try {
    switch (zulu_what) {
    case 1:
      w.s.RemoveEvent(zulu_id[t]);
      zulu_live[t] = false;
      break;
    case 2:
      w.s.SetEventZuluTime(zulu_id[t], now + 1000);
      zulu_time[t] = now + 1000;
      if (t == 0) { // its next execution
        if (zulu_repeat[0] > 0)
          --zulu_repeat[0];
        zulu_running = -1;
      }
      break;
    case 3:
      w.s.SetEventZuluTime(zulu_id[t], now - 1);
      zulu_live[t] = false;
      break;
    case 4:
      known = true;
      zulu_post(2, now, 0);
      break;
    case 5: // it takes long
      known = true;
      now += 5000;
      break;
    default:
      known = true;
    }
  } catch (const Smp::Services::InvalidEventId &) {
    ++refused;
  }
  ENSURES(refused == !known);
}
template <int WHAT> void zulu_thread() {
  World w;
  zulu_world = &w;
  w.sim.time.zulu = 1000;
  zulu_running = -1;
  zulu_count = 0;
  zulu_what = WHAT;
  zulu_target = (WHAT == 0 || WHAT > 3) ? 0 : below(2, "target");
  for (int i = 0; i < 3; ++i)
    zulu_live[i] = false;
  w.zulu = &zulu_act;
  w.sim.state = __spec_choose("executing") ? Smp::SimulatorStateKind::SSK_Executing : Smp::SimulatorStateKind::SSK_Standby;
  w.connect();
  zulu_post(0, 1000 + below(2, "first") * 1000, below(2, "repeat"));
  zulu_post(1, 1000 + below(3, "second") * 1000, below(2, "again"));
  ghost::g_wait = [](long ns) {
    zulu_settle();
    auto &now = zulu_world->sim.time.zulu;
    int k = zulu_first();
    ENSURES(k >= 0 && ns == zulu_time[k] - now && ns >= 0);
    now += ns;
    return false;
  };
  ghost::g_block = [] {
    zulu_settle();
    ENSURES(zulu_first() < 0);
    zulu_world->s.Disconnect();
    ENSURES(ghost::g_joined == 1);
  };
  ghost::run_thread();
  ENSURES(ghost::g_joined == 1 && w.s.GetCurrentEventId() == -1);
  for (int i = 0; i < 2; ++i) {
    int gone = 0;
    try {
      w.s.RemoveEvent(zulu_id[i]);
    } catch (const Smp::Services::InvalidEventId &) {
      ++gone;
    }
    ENSURES(gone == 1);
  }
}
} // namespace
CONTRACT_T(C23, zulu_run, zulu_thread<0>)
CONTRACT_T(C23, zulu_run_remove, zulu_thread<1>)
CONTRACT_T(C23, zulu_run_move, zulu_thread<2>)
CONTRACT_T(C23, zulu_run_past, zulu_thread<3>)
CONTRACT_T(C23, zulu_run_add, zulu_thread<4>)
CONTRACT_T(C23, zulu_run_late, zulu_thread<5>)
namespace {
// in other states zulu events are not executed, and not kept either
template <int> void zulu_state() {
  World w;
  zulu_world = &w;
  w.sim.time.zulu = 1000;
  static Smp::SimulatorStateKind others[] = {Smp::SimulatorStateKind::SSK_Building, Smp::SimulatorStateKind::SSK_Initialising,
                                             Smp::SimulatorStateKind::SSK_Storing, Smp::SimulatorStateKind::SSK_Restoring};
  w.sim.state = others[below(4, "state")];
  w.executes = false;
  w.connect();
  zulu_live[0] = zulu_live[1] = zulu_live[2] = false;
  zulu_running = -1;
  zulu_post(0, 1000, 0);
  ghost::g_block = [] { zulu_world->s.Disconnect(); };
  ghost::run_thread();
  ENSURES(ghost::g_joined == 1 && w.n == 0);
}
// what is disconnected does not run on, and the end of the scheduler waits for its thread
template <int> void zulu_end() {
  {
    World w;
    w.connect();
    w.sim.time.zulu = 1000;
    w.executes = false;
    w.s.AddZuluTimeEvent(&w.e[0], 1000);
    w.s.Disconnect();
    ENSURES(ghost::g_joined == 1);
    ghost::run_thread();
    ENSURES(w.n == 0);
  }
  ENSURES(ghost::g_joined == 1);
  {
    World w;
    w.connect();
  }
  ENSURES(ghost::g_joined == 1);
}
} // namespace
CONTRACT_T(C23, zulu_other_state, zulu_state<0>)
CONTRACT_T(C23, zulu_end, zulu_end<0>)
namespace {
// a stored schedule is executed when restored: later, or in another simulator
template <bool SAME, bool HELD> void stored() {
  World a;
  if (!SAME && __spec_choose("removed"))
    a.s.RemoveEvent(a.s.AddSimulationTimeEvent(&a.e[3], 700));
  for (int i = 0; i < 2; ++i) {
    auto f = Form(below(3, "form"));
    if (f == EPOCH)
      f = IMMEDIATE;
    int64_t repeat = f == SIMULATION && i == 0 ? below(2, "repeat") : 0;
    plan(a, i, f, f == IMMEDIATE ? 0 : below(2, "time") * 1000, repeat ? 1000 : 0, repeat);
  }
  if (HELD) {
    a.act = [](World &w, int k) {
      if (w.n == 1)
        w.sim.Hold(true);
    };
    a.run();
  }
  StateVector v;
  Writer out(v);
  a.s.Store(&out);
  World::Due then[4];
  for (int i = 0; i < 4; ++i)
    then[i] = a.d[i];
  auto now = a.sim.time.now;
  if (SAME) {
    if (__spec_choose("continued"))
      a.run_all();
    else
      plan(a, 2, SIMULATION, 500);
  }
  World other;
  World &b = SAME ? a : other;
  for (int i = 0; i < 4; ++i)
    b.d[i] = then[i];
  b.sim.time.now = now;
  b.sim.time.epoch = now;
  Reader in(v);
  b.s.Restore(&in);
  ENSURES(v.pos == v.size);
  auto fresh = SIMULATION;
  plan(b, 3, fresh, 1000);
  ENSURES(b.d[3].id > then[0].id && b.d[3].id > then[1].id);
  b.run_all();
}
} // namespace
CONTRACT_T(C23, stored_and_rewound, stored<true, false>)
CONTRACT_T(C23, stored_and_moved, stored<false, false>)
CONTRACT_T(C23, stored_held_and_rewound, stored<true, true>)
CONTRACT_T(C23, stored_held_and_moved, stored<false, true>)
namespace {
// mission and epoch time events are not executed after their time
template <Form F> void skipped() {
  World w;
  w.sim.time.now = 0;
  int64_t by = below(4, "by") * 1000 - 1000;
  int64_t repeat = below(2, "repeat");
  plan(w, 0, F, 1000, 1000, repeat);
  plan(w, 1, SIMULATION, 1000);
  // epoch and mission time are set ahead, or back
  w.sim.time.epoch += by;
  w.act = [](World &, int) {};
  w.n = 0;
  if (by > 0) {
    w.d[0].live = false;
    w.run_all();
    ENSURES(w.n == 1);
  } else {
    w.run_all();
    ENSURES(w.n == 2 + repeat);
  }
}
// what was moved is executed at its new time, and repeated from there
template <Form F> void moved() {
  World w;
  w.sim.time.start = 300;
  w.sim.time.epoch = 500;
  int64_t repeat = below(2, "repeat");
  auto zero = F == SIMULATION ? 0 : F == MISSION ? 200 : 500;
  plan(w, 0, F, zero + 1000, 1000, repeat);
  plan(w, 1, SIMULATION, 2500);
  static int64_t to;
  to = below(3, "to") * 1000 + 500;
  auto go = [](World &w, int64_t zero) {
    auto t = zero + to;
    w.d[0].time = when(w, F, t);
    move(w, F, w.d[0].id - 1, t);
  };
  if (__spec_choose("while executing")) {
    plan(w, 2, SIMULATION, 500);
    w.act = [](World &w, int k) {
      if (k == 2) {
        auto t = to + (F == SIMULATION ? 0 : F == MISSION ? w.sim.time.GetMissionTime() : w.sim.time.epoch);
        w.d[0].time = when(w, F, t);
        move(w, F, w.d[0].id - 1, t);
      }
    };
  } else
    go(w, zero);
  w.run_all();
  ENSURES(w.n >= 2 + repeat);
}
// what an event throws ends neither the scheduler nor its current event
struct Failure : std::exception {
  const char *what() const noexcept override { return "it failed"; }
};
template <int> void thrown() {
  World w;
  plan(w, 0, Form(below(2, "form")), 0, 1000, 1);
  plan(w, 1, SIMULATION, 0);
  static int kind;
  kind = below(2, "kind");
  w.act = [](World &w, int k) {
    if (k == 0 && w.n == 1) {
      if (kind)
        Xsmp::Exception::throwException(&w.s, "Oops", "test", "it failed");
      throw Failure();
    }
  };
  w.run_all();
  ENSURES(w.n == 3 && w.sim.aborted == 1);
}
} // namespace
CONTRACT_T(C23, run_after_mission_time, skipped<MISSION>)
CONTRACT_T(C23, run_after_epoch_time, skipped<EPOCH>)
CONTRACT_T(C23, run_moved, moved<SIMULATION>)
CONTRACT_T(C23, run_moved_mission, moved<MISSION>)
CONTRACT_T(C23, run_moved_epoch, moved<EPOCH>)
CONTRACT_T(C23, run_throwing, thrown<0>)
