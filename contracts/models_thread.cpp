// Assumed contracts of std::thread, timed waits and the steady clock, see
// thread_ghost.h.  The same text serves concrete runs (native/threads.cpp).
#include "thread_ghost.h"
#include "lock_ghost.h"
#include <cerrno>
#include <condition_variable>
#include <memory>
#include <mutex>
#ifdef SPEC_NATIVE
#define MODEL(sym) __asm__(sym)
#else
#define MODEL(sym) __asm__("__model_" sym)
#endif
#define USED __attribute__((used))
namespace ghost {
#ifdef SPEC_NATIVE
bool g_uncontended; // it is so in concrete runs
#endif
Body *g_thread;
int g_joined;
long g_steady = 5000000000;
bool (*g_wait)(long);
void (*g_block)();
} // namespace ghost
using namespace ghost;
extern "C" {
void m_start(std::thread *t, std::unique_ptr<Body> *s, void (*)())
    MODEL("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
USED void m_start(std::thread *t, std::unique_ptr<Body> *s, void (*)()) {
  g_thread = s->release();
  unsigned long id = 1;
  memcpy(static_cast<void *>(t), &id, sizeof id);
}
void m_join(std::thread *t) MODEL("_ZNSt6thread4joinEv");
USED void m_join(std::thread *t) {
  unsigned long id = 0;
  memcpy(static_cast<void *>(t), &id, sizeof id);
  ++g_joined;
}
long m_steady() MODEL("_ZNSt6chrono3_V212steady_clock3nowEv");
USED long m_steady() { return g_steady; }
int m_clockwait(void *, void *, int, const timespec *at) MODEL("pthread_cond_clockwait");
USED int m_clockwait(void *, void *m, int, const timespec *at) {
  const long end = at->tv_sec * 1000000000 + at->tv_nsec;
  // the mutex is free while waiting
  pthread_mutex_unlock(static_cast<pthread_mutex_t *>(m));
  const bool notified = g_wait && g_wait(end - g_steady);
  pthread_mutex_lock(static_cast<pthread_mutex_t *>(m));
  if (notified)
    return 0;
  g_steady = end;
  return ETIMEDOUT;
}
void m_cvwait(void *, std::unique_lock<std::mutex> *) MODEL("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE");
USED void m_cvwait(void *, std::unique_lock<std::mutex> *lock) {
  __spec_assert(g_block != nullptr, "nobody would end this wait");
  lock->unlock();
  g_block();
  lock->lock();
}
#ifndef SPEC_NATIVE
void m_state(void *) MODEL("_ZNSt6thread6_StateD2Ev");
USED void m_state(void *) {}
#endif
}
