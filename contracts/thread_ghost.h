// Threads and timed waits: a started thread is only recorded, and the contract
// runs it; a wait calls back into the contract, which acts for the others.
#ifndef VERIF_THREAD_GHOST_H
#define VERIF_THREAD_GHOST_H
#include "spec.h"
#include <thread>
namespace ghost {
// laid out as std::thread::_State
struct Body {
  virtual ~Body() = default;
  virtual void run() = 0;
};
extern Body *g_thread;                // what the started thread will run
extern int g_joined;
extern long g_steady;                 // the steady clock, in nanoseconds
extern bool (*g_wait)(long ns);       // a timed wait; true: notified before its end
extern void (*g_block)();             // a wait without time limit
__attribute__((no_sanitize("undefined"))) inline void run_thread() { g_thread->run(); }
} // namespace ghost
#endif
