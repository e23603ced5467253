// Assumed contracts of the character classification functions of <cctype> in
// the "C" locale, and of the number parsers over the digits that follow a digit.
#include "spec.h"
#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))
extern "C" {
static int letter(int c) { return unsigned((c | 32) - 'a') < 26u; }
static int digit(int c) { return unsigned(c - '0') < 10u; }
int m_isalpha(int) MODEL("isalpha");
USED int m_isalpha(int c) { return letter(c); }
int m_isdigit(int) MODEL("isdigit");
USED int m_isdigit(int c) { return digit(c); }
int m_isalnum(int) MODEL("isalnum");
USED int m_isalnum(int c) { return letter(c) | digit(c); }
int m_isxdigit(int) MODEL("isxdigit");
USED int m_isxdigit(int c) { return digit(c) | (unsigned((c | 32) - 'a') < 6u); }
// hexadecimal number: the caller must have made sure that it starts with a
// digit, has no 0x prefix and does not overflow
unsigned long m_strtoul(const char *, char **, int) MODEL("strtoul");
USED unsigned long m_strtoul(const char *s, char **end, int base) {
  __spec_assert(base == 16 && m_isxdigit((unsigned char)s[0]), "strtoul is given a hexadecimal digit");
  unsigned long v = 0;
  int n = 0;
  while (m_isxdigit((unsigned char)*s)) {
    unsigned c = (unsigned char)*s++;
    v = v * 16 + (c & 15) + 9 * (c >> 6);
    ++n;
    __spec_assert(n <= 16, "strtoul is given a number of at most 64 bits");
  }
  __spec_assert((*s | 32) != 'x', "strtoul is given no 0x prefix");
  if (end)
    *end = const_cast<char *>(s);
  return v;
}
unsigned long long m_strtoull(const char *, char **, int) MODEL("strtoull");
USED unsigned long long m_strtoull(const char *s, char **end, int base) { return m_strtoul(s, end, base); }
unsigned long m_strtoul23(const char *, char **, int) MODEL("__isoc23_strtoul");
USED unsigned long m_strtoul23(const char *s, char **end, int base) { return m_strtoul(s, end, base); }
unsigned long long m_strtoull23(const char *, char **, int) MODEL("__isoc23_strtoull");
USED unsigned long long m_strtoull23(const char *s, char **end, int base) { return m_strtoul(s, end, base); }
// strtoll of a decimal number, as in C: leading blanks, a sign, saturation
int the_errno;
int *m_errno() MODEL("__errno_location");
USED int *m_errno() { return &the_errno; }
long long m_strtoll(const char *, char **, int) MODEL("strtoll");
USED long long m_strtoll(const char *s, char **end, int base) {
  __spec_assert(base == 10, "strtoll is given a decimal number");
  const char *at = s;
  while (*at == ' ' || (*at >= 9 && *at <= 13))
    ++at;
  bool negative = *at == '-';
  if (*at == '-' || *at == '+')
    ++at;
  bool any = false, over = false;
  unsigned long long v = 0, limit = (1ULL << 63) - !negative;
  for (; *at >= '0' && *at <= '9'; ++at) {
    any = true;
    unsigned long long d = (unsigned char)*at - '0';
    if (over || v > (limit - d) / 10)
      over = true;
    else
      v = v * 10 + d;
  }
  if (end)
    *end = const_cast<char *>(any ? at : s);
  if (over) {
    the_errno = 34; // ERANGE
    v = limit;
  }
  return (long long)(negative ? 0 - v : v);
}
long long m_strtoll23(const char *, char **, int) MODEL("__isoc23_strtoll");
USED long long m_strtoll23(const char *s, char **end, int base) { return m_strtoll(s, end, base); }
}
