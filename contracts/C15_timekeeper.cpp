// Simulation, epoch and mission time keep their relations.
// @sources: src/Xsmp/Services/XsmpTimeKeeper.cpp src-gen/Xsmp/Services/XsmpTimeKeeperGen.cpp src/Xsmp/Component.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp src/Xsmp/DateTime.cpp
// @nativesources: src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp
// @flags: -I$V/smp -I$R/src-gen
// @models: models_pthread.cpp models_exceptions.cpp models_ctype.cpp models_stream.cpp models_clock.cpp
#include "smp_common.h"
#include "clock_ghost.h"
#include "storage_common.h"
#include <Smp/Services/InvalidSimulationTime.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
using Xsmp::Services::XsmpTimeKeeper;
using EM = Smp::Services::IEventManager;
namespace {
// small enough for sums of a few
int64_t small(const char *n) {
  auto v = spec::nondet<int64_t>(n);
  REQUIRES(v >= INT64_MIN / 8 && v <= INT64_MAX / 8);
  return v;
}
struct World;
struct Events : Named<Smp::Services::MockIEventManager> {
  const Smp::IEntryPoint *pre = nullptr, *post = nullptr;
  int subscribed = 0, emitted = 0;
  Smp::Services::EventId last = -1;
  const XsmpTimeKeeper *tk = nullptr;
  int64_t epoch = 0, mission = 0; // what a handler reads
  void Subscribe(Smp::Services::EventId id, const Smp::IEntryPoint *ep) override {
    ++subscribed;
    (id == EM::SMP_PreSimTimeChangeId ? pre : id == EM::SMP_PostSimTimeChangeId ? post : pre) = ep;
    ENSURES(id == EM::SMP_PreSimTimeChangeId || id == EM::SMP_PostSimTimeChangeId);
  }
  void Emit(Smp::Services::EventId id, Smp::Bool) override {
    ++emitted;
    last = id;
    epoch = tk->GetEpochTime();
    mission = tk->GetMissionTime();
  }
};
struct Sched : Named<Smp::Services::MockIScheduler> {
  int64_t next = 0;
  Smp::Duration GetNextScheduledEventTime() const override { return next; }
};
struct Sim : Named<Smp::MockISimulator> {
  Events ev;
  Sched sc;
  Smp::Services::IEventManager *GetEventManager() const override { return const_cast<Events *>(&ev); }
  Smp::Services::IScheduler *GetScheduler() const override { return const_cast<Sched *>(&sc); }
};
struct Keeper {
  Sim sim;
  XsmpTimeKeeper tk;
  int64_t now = 0, epoch = 0, start = 0;
  Keeper() : tk("tk", "", nullptr, &sim) {
    sim.ev.tk = &tk;
    Smp::MockIPublication pub;
    tk.Publish(&pub);
    tk.Configure(nullptr, nullptr);
    tk.Connect(&sim);
    ENSURES(sim.ev.subscribed == 2 && sim.ev.pre && sim.ev.post);
  }
  void at(int64_t t) {
    sim.ev.pre->Execute();
    sim.sc.next = t;
    tk.SetSimulationTime(t);
    sim.ev.post->Execute();
    now = t;
  }
  void check() {
    ENSURES(tk.GetSimulationTime() == now);
    ENSURES(tk.GetEpochTime() == epoch);
    ENSURES(tk.GetMissionStartTime() == start);
    ENSURES(tk.GetMissionTime() == epoch - start);
  }
  // an arbitrary state
  void arbitrary() {
    now = small("now");
    REQUIRES(now >= 0);
    at(now);
    epoch = small("epoch");
    tk.SetEpochTime(epoch);
    start = small("start");
    tk.SetMissionStartTime(start);
    sim.ev.emitted = 0;
  }
};
} // namespace

CONTRACT(C15, starts_at_zero) {
  Keeper k;
  k.check();
}
CONTRACT(C15, set_epoch) {
  Keeper k;
  k.arbitrary();
  k.check();
  auto e = small("e");
  k.tk.SetEpochTime(e);
  k.epoch = e; // the mission start stays, mission time follows
  k.check();
  ENSURES(k.sim.ev.emitted == 1 && k.sim.ev.last == EM::SMP_EpochTimeChangedId);
  ENSURES(k.sim.ev.epoch == e && k.sim.ev.mission == e - k.start);
}
CONTRACT(C15, set_mission_start) {
  Keeper k;
  k.arbitrary();
  auto s = small("s");
  k.tk.SetMissionStartTime(s);
  k.start = s;
  k.check();
  ENSURES(k.sim.ev.emitted == 1 && k.sim.ev.last == EM::SMP_MissionTimeChangedId);
  ENSURES(k.sim.ev.epoch == k.epoch && k.sim.ev.mission == k.epoch - s);
}
CONTRACT(C15, set_mission_time) {
  Keeper k;
  k.arbitrary();
  auto m = small("m");
  k.tk.SetMissionTime(m);
  k.start = k.epoch - m;
  k.check();
  ENSURES(k.tk.GetMissionTime() == m);
  ENSURES(k.sim.ev.emitted == 1 && k.sim.ev.last == EM::SMP_MissionTimeChangedId);
  ENSURES(k.sim.ev.epoch == k.epoch && k.sim.ev.mission == m);
}
// time passes for all of them alike
CONTRACT(C15, advance) {
  Keeper k;
  k.arbitrary();
  auto t = small("t"), next = small("next");
  k.sim.sc.next = next;
  k.sim.ev.pre->Execute();
  bool ok = t >= k.now && t <= next;
  try {
    k.tk.SetSimulationTime(t);
    ENSURES(ok);
    k.epoch += t - k.now;
    k.now = t;
  } catch (const Smp::Services::InvalidSimulationTime &e) {
    ENSURES(!ok);
    ENSURES(e.GetCurrentTime() == k.now && e.GetProvidedTime() == t && e.GetMaximumTime() == next);
    ENSURES(e.GetSender() == &k.tk);
  }
  k.check();
  ENSURES(k.sim.ev.emitted == 0);
}
// outside of a time change simulation time cannot be moved
CONTRACT(C15, no_advance) {
  Keeper k;
  if (__spec_choose("moved"))
    k.arbitrary();
  k.sim.sc.next = small("next");
  k.tk.SetSimulationTime(small("t"));
  k.check();
}
CONTRACT(C15, store_restore) {
  StateVector v;
  Writer w{v};
  Reader r{v};
  Keeper a, b;
  a.arbitrary();
  if (__spec_choose("fresh"))
    b.arbitrary();
  a.tk.Store(&w);
  a.check();
  b.tk.Restore(&r);
  b.now = a.now, b.epoch = a.epoch, b.start = a.start;
  b.check();
  ENSURES(v.pos == v.size);
}
CONTRACT(C15, zulu_is_the_system_clock) {
  Keeper k;
  k.arbitrary();
  auto before = ghost::clock_read();
  auto z = k.tk.GetZuluTime() + 946728000LL * 1000000000LL;
  ENSURES(before <= z && z <= ghost::clock_read());
  k.check();
}
