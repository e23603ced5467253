// What reached the date library.
#ifndef VERIF_DATE_GHOST_H
#define VERIF_DATE_GHOST_H
#include "spec.h"
#include <string>
namespace ghost {
struct Date {
  bool ok;         // whether the next text can be parsed
  int64_t value;   // and what it says
  int parses;
  const void *stream;
  char kind;       // 'd' an amount of time, 't' an instant of the system clock
  const char *want_fmt = "", *want_source = "";
  bool fmt_ok = true;   // every format was the wanted one
  bool source_ok;       // the string stream was made of the wanted text
  const void *source_of;
};
extern Date g_date;
} // namespace ghost
#endif
