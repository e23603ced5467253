// Assumed contracts of formatted string insertion and extraction.
#include "stream_ghost.h"
#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))
namespace ghost {
Out g_out;
In g_in;
} // namespace ghost

namespace {
// the formatting state of the stream
struct Format {
  long width;
  char fill;
  int base;
} fmt = {0, ' ', 10};
using Num = unsigned long;
void pad(size_t n) {
  for (; fmt.width > long(n); --fmt.width) {
    __spec_assume(ghost::g_out.n < ghost::OUT_MAX);
    ghost::g_out.buf[ghost::g_out.n++] = fmt.fill;
  }
  fmt.width = 0;
}
void put(char c) {
  __spec_assume(ghost::g_out.n < ghost::OUT_MAX);
  ghost::g_out.buf[ghost::g_out.n++] = c;
}
// an integer in the current base, right-aligned
void number(Num v) {
  if (fmt.base == 16 && fmt.fill == '0' && fmt.width > 0 && fmt.width < 16 && v >> (4 * fmt.width) == 0) {
    for (long i = fmt.width - 1; i >= 0; --i) {
      unsigned d = unsigned(v >> (4 * i)) & 15u;
      put(char('0' + d + unsigned(d > 9) * 39u));
    }
    fmt.width = 0;
    return;
  }
  char t[24];
  size_t n = 0;
  do {
    unsigned d = unsigned(v % unsigned(fmt.base));
    t[n++] = char('0' + d + unsigned(d > 9) * 39u);
    v /= unsigned(fmt.base);
  } while (v != 0);
  pad(n);
  while (n > 0)
    put(t[--n]);
}
} // namespace
// manipulators and integers
std::ios_base &m_hex(std::ios_base &) MODEL("_ZSt3hexRSt8ios_base");
USED std::ios_base &m_hex(std::ios_base &b) { fmt.base = 16; return b; }
std::ios_base &m_dec(std::ios_base &) MODEL("_ZSt3decRSt8ios_base");
USED std::ios_base &m_dec(std::ios_base &b) { fmt.base = 10; return b; }
std::ios_base &m_oct(std::ios_base &) MODEL("_ZSt3octRSt8ios_base");
USED std::ios_base &m_oct(std::ios_base &b) { fmt.base = 8; return b; }
std::ostream &m_manip(std::ostream &, std::ios_base &(*)(std::ios_base &)) MODEL("_ZNSolsEPFRSt8ios_baseS0_E");
USED std::ostream &m_manip(std::ostream &os, std::ios_base &(*f)(std::ios_base &)) {
  f(*reinterpret_cast<std::ios_base *>(&os));
  return os;
}
std::ostream &m_setw(std::ostream &, int) MODEL("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw");
USED std::ostream &m_setw(std::ostream &os, int w) { fmt.width = w; return os; }
std::ostream &m_setfill(std::ostream &, char) MODEL("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E");
USED std::ostream &m_setfill(std::ostream &os, char c) { fmt.fill = c; return os; }
std::ostream &m_insj(std::ostream &, unsigned) MODEL("_ZNSolsEj");
USED std::ostream &m_insj(std::ostream &os, unsigned v) { number(v); return os; }
std::ostream &m_inst(std::ostream &, unsigned short) MODEL("_ZNSolsEt");
USED std::ostream &m_inst(std::ostream &os, unsigned short v) { number(v); return os; }
std::ostream &m_insm(std::ostream &, unsigned long) MODEL("_ZNSolsEm");
USED std::ostream &m_insm(std::ostream &os, unsigned long v) { number(v); return os; }
// std::__ostream_insert(os, s, n): writes the n characters, padded to the width
std::ostream &m_insert(std::ostream &, const char *, long) MODEL(
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
USED std::ostream &m_insert(std::ostream &os, const char *s, long n) {
  __spec_assert(__spec_valid(s, size_t(n)), "inserted characters are readable");
  pad(size_t(n));
  __spec_assume(ghost::g_out.n + size_t(n) <= ghost::OUT_MAX);
  memcpy(ghost::g_out.buf + ghost::g_out.n, s, size_t(n));
  ghost::g_out.n += size_t(n);
  return os;
}
// os.write(s, n)
std::ostream &m_write(std::ostream &, const char *, long) MODEL("_ZNSo5writeEPKcl");
USED std::ostream &m_write(std::ostream &os, const char *s, long n) {
  auto w = fmt.width;
  fmt.width = 0;
  m_insert(os, s, n);
  fmt.width = w;
  return os;
}
// os << "text"
std::ostream &m_inscstr(std::ostream &, const char *) MODEL(
    "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
USED std::ostream &m_inscstr(std::ostream &os, const char *s) {
  return m_insert(os, s, long(strlen(s)));
}
// is >> std::string: replaces the value by the extracted word
std::istream &m_extract(std::istream &, std::string &) MODEL(
    "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
USED std::istream &m_extract(std::istream &is, std::string &str) {
  str.assign(ghost::g_in.p, ghost::g_in.n);
  return is;
}
// std::_Hash_bytes: a function of the bytes and the seed only
namespace {
struct Call {
  const char *p;
  size_t n, seed, ret;
};
constexpr int MAX_CALLS = 32;
Call calls[MAX_CALLS];
int ncalls;
} // namespace
size_t m_hash(const void *, size_t, size_t) MODEL("_ZSt11_Hash_bytesPKvmm");
USED size_t m_hash(const void *p, size_t n, size_t seed) {
  auto *c = static_cast<const char *>(p);
  __spec_assert(__spec_valid(p, n), "hashed bytes are readable");
  size_t ret = spec::nondet<size_t>("hash");
  for (int i = 0; i < ncalls; ++i)
    if (calls[i].n == n && calls[i].seed == seed &&
        memcmp(calls[i].p, c, n) == 0) {
      ret = calls[i].ret;
      break;
    }
  __spec_assume(ncalls < MAX_CALLS);
  calls[ncalls++] = {c, n, seed, ret};
  return ret;
}
