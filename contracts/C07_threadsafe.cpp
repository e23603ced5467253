// Shared data is reachable only under the matching lock.
// @models: models_pthread.cpp
// @native: locks.cpp
// @nativeflags: -Dpthread_rwlock_trywrlock=vf_trywrlock -Dpthread_rwlock_tryrdlock=vf_tryrdlock
#include "lock_ghost.h"
#include <Xsmp/ThreadSafeData.h>
#include <type_traits>
#ifdef SPEC_NATIVE
#include <thread>
#endif
namespace {
struct Pair {
  long a, b;
  Pair(long x, long y) : a(x), b(y) {}
};
using Data = Xsmp::ThreadSafeData<Pair>;
Pair *g_data; // for the interference of other threads: they keep a == b
#ifdef SPEC_NATIVE
void others_may_write(Pair *) {}
// what another thread can see of the lock
int mode(Data &d, int) {
  bool r = false, w = false;
  std::thread([&] {
    r = d.try_read().has_value();
    w = d.try_write().has_value();
  }).join();
  ENSURES(r || !w);
  return !r ? ghost::EXCLUSIVE : !w ? ghost::SHARED : ghost::FREE;
}
#else
void interfere() {
  long v = spec::nondet<long>("other");
  g_data->a = v;
  g_data->b = v;
}
void others_may_write(Pair *p) {
  g_data = p;
  ghost::g_interfere = interfere;
}
// the k-th lock used in this contract
int mode(Data &, int k) {
  if (k >= ghost::g_locks.n)
    return ghost::FREE;
  auto &l = ghost::g_locks.l[k];
  return l.writer ? ghost::EXCLUSIVE : l.readers ? ghost::SHARED : ghost::FREE;
}
#endif
long any_long(const char *n) { return spec::nondet<long>(n); }
} // namespace

CONTRACT(C07, construction_forwards) {
  long a = any_long("a"), b = any_long("b");
  Data d{a, b};
  ENSURES(mode(d, 0) == ghost::FREE);
  auto r = d.read();
  ENSURES(r.get().a == a);
  ENSURES(r.get().b == b);
}
CONTRACT(C07, read_holds_shared_lock) {
  Data d{1, 1};
  {
    auto r = d.read();
    ENSURES(std::is_same_v<decltype(r.get()), const Pair &>);
    ENSURES(mode(d, 0) == ghost::SHARED);
    auto r2 = d.read(); // readers do not exclude each other
    ENSURES(mode(d, 0) == ghost::SHARED);
    ENSURES(&r.get() == &r2.get());
    ENSURES(!d.try_write().has_value()); // but they exclude writers
    ENSURES(mode(d, 0) == ghost::SHARED);
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
CONTRACT(C07, write_holds_exclusive_lock) {
  Data d{1, 1};
  {
    auto w = d.write();
    ENSURES(std::is_same_v<decltype(w.get()), Pair &>);
    ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
    ENSURES(!d.try_write().has_value());
    ENSURES(!d.try_read().has_value());
    ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
CONTRACT(C07, writes_are_seen) {
  Data d{any_long("a"), any_long("b")};
  long v = any_long("v"), w = any_long("w");
  {
    auto l = d.write();
    l.get().a = v;
    l.get() = Pair(l.get().a, w);
  }
  auto r = d.read();
  ENSURES(r.get().a == v);
  ENSURES(r.get().b == w);
}
CONTRACT(C07, read_unlock_relock) {
  Data d{2, 2};
  {
    auto r = d.read();
    r.unlock();
    ENSURES(mode(d, 0) == ghost::FREE);
    {
      auto w = d.write();
      w.get().a = 3;
      w.get().b = 3;
      ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
    }
    r.lock();
    ENSURES(mode(d, 0) == ghost::SHARED);
    ENSURES(r.get().a == 3);
  }
  ENSURES(mode(d, 0) == ghost::FREE);
  {
    auto r = d.read();
    r.unlock(); // released once, not again by its end
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
CONTRACT(C07, write_unlock_relock) {
  Data d{2, 2};
  {
    auto w = d.write();
    w.unlock();
    ENSURES(mode(d, 0) == ghost::FREE);
    {
      auto r = d.read();
      ENSURES(mode(d, 0) == ghost::SHARED);
    }
    w.lock();
    ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
    w.get().a = 9;
  }
  ENSURES(mode(d, 0) == ghost::FREE);
  {
    auto w = d.write();
    w.unlock();
  }
  ENSURES(mode(d, 0) == ghost::FREE);
  ENSURES(d.read().get().a == 9);
}
CONTRACT(C07, moved_locks) {
  Data d{4, 4};
  {
    auto r = d.read();
    {
      auto r2 = std::move(r);
      ENSURES(mode(d, 0) == ghost::SHARED);
      ENSURES(r2.get().a == 4);
    }
    ENSURES(mode(d, 0) == ghost::FREE);
  }
  ENSURES(mode(d, 0) == ghost::FREE);
  {
    auto w = d.write();
    {
      auto w2 = std::move(w);
      ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
    }
    ENSURES(mode(d, 0) == ghost::FREE);
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
// a failed attempt yields nothing; a successful one holds the lock
CONTRACT(C07, try_read) {
  Data d{5, 5};
  {
    auto r = d.try_read();
    if (r.has_value()) {
      ENSURES(mode(d, 0) == ghost::SHARED);
      ENSURES(std::is_same_v<decltype(r->get()), const Pair &>);
      ENSURES(r->get().b == 5);
      r->unlock();
      ENSURES(mode(d, 0) == ghost::FREE);
      r->lock();
      ENSURES(mode(d, 0) == ghost::SHARED);
    } else {
      ENSURES(mode(d, 0) == ghost::FREE);
    }
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
CONTRACT(C07, try_write) {
  Data d{5, 5};
  {
    auto w = d.try_write();
    if (w.has_value()) {
      ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
      w->get().a = 6;
      w->unlock();
      ENSURES(mode(d, 0) == ghost::FREE);
      w->lock();
      ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
      ENSURES(w->get().a == 6);
    } else {
      ENSURES(mode(d, 0) == ghost::FREE);
    }
  }
  ENSURES(mode(d, 0) == ghost::FREE);
}
CONTRACT(C07, try_with_reader) {
  Data d{5, 5};
  auto r = d.read();
  {
    auto t = d.try_read();
    ENSURES(mode(d, 0) == ghost::SHARED);
  }
  ENSURES(mode(d, 0) == ghost::SHARED);
}
// whatever other threads do, data guarded by an invariant satisfies it under
// either lock, and does not change while the lock is held
CONTRACT(C07, invariant_under_lock) {
  Data d{7, 7};
  Pair *p;
  {
    auto w = d.write();
    p = &w.get();
  }
  others_may_write(p);
  {
    auto r = d.read();
    long a = r.get().a;
    ENSURES(a == r.get().b);
    auto r2 = d.try_read();
    if (r2)
      ENSURES(r2->get().a == a);
    ENSURES(r.get().a == a);
    r.unlock();
  }
  long v = any_long("v");
  {
    auto w = d.write();
    ENSURES(w.get().a == w.get().b);
    w.get().a = v;
    ENSURES(!d.try_read().has_value());
    w.get().b = v;
    ENSURES(w.get().a == v);
    w.unlock();
    w.lock();
    ENSURES(w.get().a == w.get().b);
  }
  if (auto t = d.try_write()) {
    ENSURES(t->get().a == t->get().b);
  }
}
// two objects have two locks
CONTRACT(C07, independent_objects) {
  Data d{1, 1}, e{2, 2};
  auto w = d.write();
  auto x = e.write();
  ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
  ENSURES(mode(e, 1) == ghost::EXCLUSIVE);
  x.unlock();
  ENSURES(mode(d, 0) == ghost::EXCLUSIVE);
  ENSURES(mode(e, 1) == ghost::FREE);
  w.get().a = 8;
  auto y = e.read();
  ENSURES(y.get().a == 2);
}
