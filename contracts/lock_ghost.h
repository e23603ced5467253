// What this thread holds of each lock.  The verifier tracks it in
// models_pthread.cpp; concrete runs ask a second thread.
#ifndef VERIF_LOCK_GHOST_H
#define VERIF_LOCK_GHOST_H
#include "spec.h"
namespace ghost {
enum Mode { FREE = 0, SHARED = 1, EXCLUSIVE = 2 };
struct Lock {
  const void *id;
  int readers; // shared holds of this thread
  bool writer; // exclusive hold of this thread
};
constexpr int MAX_LOCKS = 16;
struct Locks {
  Lock l[MAX_LOCKS];
  int n;
  int waits; // notifications
};
extern Locks g_locks;
extern Locks g_mutexes;
// other threads may act whenever this thread holds nothing: called by the
// models when a lock is obtained that this thread did not hold before
extern void (*g_interfere)();
// how many read-write locks this thread holds
int held();
// no other thread holds a mutex when this one tries to lock it
extern bool g_uncontended;
} // namespace ghost
#endif
