// Concrete runs of the lock contracts: a non-blocking attempt may find the
// lock taken by another thread, as the verifier's counterexample says.
#include "spec.h"
#undef pthread_rwlock_trywrlock
#undef pthread_rwlock_tryrdlock
#include <cerrno>
#include <pthread.h>
extern "C" {
int pthread_rwlock_trywrlock(pthread_rwlock_t *);
int pthread_rwlock_tryrdlock(pthread_rwlock_t *);
static pthread_t contractThread = pthread_self();
static bool busy() {
  return pthread_equal(pthread_self(), contractThread) &&
         spec::nondet<bool>("busy");
}
int vf_trywrlock(pthread_rwlock_t *l) {
  int r = pthread_rwlock_trywrlock(l);
  if (r == 0 && busy()) {
    pthread_rwlock_unlock(l);
    return EBUSY;
  }
  return r;
}
int vf_tryrdlock(pthread_rwlock_t *l) {
  int r = pthread_rwlock_tryrdlock(l);
  if (r == 0 && busy()) {
    pthread_rwlock_unlock(l);
    return EBUSY;
  }
  return r;
}
}
