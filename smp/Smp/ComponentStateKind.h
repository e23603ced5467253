#include <Smp/_smp.h>
