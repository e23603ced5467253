// Concrete runs in which another thread acts while this one holds no
// read-write lock: called before a lock is obtained.
#include "lock_ghost.h"
#undef pthread_rwlock_rdlock
#undef pthread_rwlock_wrlock
#undef pthread_rwlock_unlock
#include <pthread.h>
namespace ghost {
Locks g_locks;
void (*g_interfere)();
static int g_held;
int held() { return g_held; }
} // namespace ghost
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t *);
int pthread_rwlock_wrlock(pthread_rwlock_t *);
int pthread_rwlock_unlock(pthread_rwlock_t *);
int vf_rdlock(pthread_rwlock_t *l) {
  if (ghost::g_interfere)
    ghost::g_interfere();
  ++ghost::g_held;
  return pthread_rwlock_rdlock(l);
}
int vf_wrlock(pthread_rwlock_t *l) {
  if (ghost::g_interfere)
    ghost::g_interfere();
  ++ghost::g_held;
  return pthread_rwlock_wrlock(l);
}
int vf_unlock(pthread_rwlock_t *l) {
  --ghost::g_held;
  return pthread_rwlock_unlock(l);
}
}
