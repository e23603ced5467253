// Assumed contract of the system clock: any instant since 1970, never earlier
// than one seen before.
#include "clock_ghost.h"
namespace ghost {
long g_clock;
}
long m_now() __asm__("__model__ZNSt6chrono3_V212system_clock3nowEv");
__attribute__((used)) long m_now() {
  long v = spec::nondet<long>("system clock");
  REQUIRES(v >= ghost::g_clock);
  return ghost::g_clock = v;
}
