// Assumed contracts of the POSIX locks: mutual exclusion is theirs; the
// preconditions (no self-deadlock, unlock only what is held) are checked.
#include "lock_ghost.h"
#include <cerrno>
#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))
namespace ghost {
Locks g_locks;
Locks g_mutexes;
void (*g_interfere)();
bool g_uncontended;
// [a][b]: b was awaited while a was held
static bool g_awaited[MAX_LOCKS][MAX_LOCKS];
static Lock *find(Locks &t, const void *id) {
  for (int i = 0; i < t.n; ++i)
    if (t.l[i].id == id)
      return &t.l[i];
  __spec_assume(t.n < MAX_LOCKS);
  Lock *l = &t.l[t.n++];
  l->id = id;
  l->readers = 0;
  l->writer = false;
  return l;
}
int held() {
  int n = 0;
  for (int i = 0; i < g_locks.n; ++i)
    n += g_locks.l[i].writer + g_locks.l[i].readers;
  return n;
}
static void entered(Lock *l) {
  if (g_interfere && !l->writer && l->readers == 0)
    g_interfere();
}
} // namespace ghost
using namespace ghost;
extern "C" {
int m_rdlock(void *) MODEL("pthread_rwlock_rdlock");
USED int m_rdlock(void *p) {
  Lock *l = find(g_locks, p);
  if (l->writer)
    return EDEADLK;
  entered(l);
  ++l->readers;
  return 0;
}
int m_tryrdlock(void *) MODEL("pthread_rwlock_tryrdlock");
USED int m_tryrdlock(void *p) {
  Lock *l = find(g_locks, p);
  if (l->writer || spec::nondet<bool>("busy"))
    return EBUSY;
  entered(l);
  ++l->readers;
  return 0;
}
int m_wrlock(void *) MODEL("pthread_rwlock_wrlock");
USED int m_wrlock(void *p) {
  Lock *l = find(g_locks, p);
  if (l->writer)
    return EDEADLK;
  __spec_assert(l->readers == 0, "no deadlock: the exclusive lock is not "
                                 "awaited while holding the shared one");
  entered(l);
  l->writer = true;
  return 0;
}
int m_trywrlock(void *) MODEL("pthread_rwlock_trywrlock");
USED int m_trywrlock(void *p) {
  Lock *l = find(g_locks, p);
  if (l->writer || l->readers || spec::nondet<bool>("busy"))
    return EBUSY;
  entered(l);
  l->writer = true;
  return 0;
}
int m_rwunlock(void *) MODEL("pthread_rwlock_unlock");
USED int m_rwunlock(void *p) {
  Lock *l = find(g_locks, p);
  __spec_assert(l->writer || l->readers > 0,
                "only a lock that is held is released");
  if (l->writer)
    l->writer = false;
  else
    --l->readers;
  return 0;
}
int m_rwinit(void *, const void *) MODEL("pthread_rwlock_init");
USED int m_rwinit(void *, const void *) { return 0; }
int m_rwdestroy(void *) MODEL("pthread_rwlock_destroy");
USED int m_rwdestroy(void *p) {
  Lock *l = find(g_locks, p);
  __spec_assert(!l->writer && l->readers == 0, "a held lock is not destroyed");
  return 0;
}
int m_mlock(void *) MODEL("pthread_mutex_lock");
USED int m_mlock(void *p) {
  Lock *l = find(g_mutexes, p);
  __spec_assert(!l->writer, "no deadlock: a held mutex is not locked again");
  // any two mutexes are awaited in one order only
  const int me = int(l - g_mutexes.l);
  for (int i = 0; i < g_mutexes.n; ++i)
    if (g_mutexes.l[i].writer) {
      __spec_assert(!g_awaited[me][i], "no deadlock: two mutexes are awaited in one order only");
      g_awaited[i][me] = true;
    }
  l->writer = true;
  return 0;
}
int m_mtrylock(void *) MODEL("pthread_mutex_trylock");
USED int m_mtrylock(void *p) {
  Lock *l = find(g_mutexes, p);
  if (l->writer || (!g_uncontended && spec::nondet<bool>("busy")))
    return EBUSY;
  l->writer = true;
  return 0;
}
int m_munlock(void *) MODEL("pthread_mutex_unlock");
USED int m_munlock(void *p) {
  Lock *l = find(g_mutexes, p);
  __spec_assert(l->writer, "only a mutex that is held is released");
  l->writer = false;
  return 0;
}
int m_mdestroy(void *) MODEL("pthread_mutex_destroy");
USED int m_mdestroy(void *) { return 0; }
// std::condition_variable
void m_cvctor(void *) MODEL("_ZNSt18condition_variableC1Ev");
USED void m_cvctor(void *) {}
void m_cvdtor(void *) MODEL("_ZNSt18condition_variableD1Ev");
USED void m_cvdtor(void *) {}
void m_cvall(void *) MODEL("_ZNSt18condition_variable10notify_allEv");
USED void m_cvall(void *) { ++g_locks.waits; }
void m_cvone(void *) MODEL("_ZNSt18condition_variable10notify_oneEv");
USED void m_cvone(void *) { ++g_locks.waits; }
}
