// The system clock, in nanoseconds since 1970.
#ifndef VERIF_CLOCK_GHOST_H
#define VERIF_CLOCK_GHOST_H
#include "spec.h"
#include <chrono>
namespace ghost {
#ifdef SPEC_NATIVE
inline long clock_read() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}
#else
extern long g_clock; // the last instant read
inline long clock_read() { return g_clock; }
#endif
} // namespace ghost
#endif
