#ifndef VERIF_STRING_COMMON_H
#define VERIF_STRING_COMMON_H
#include "spec.h"
#include <Xsmp/String.h>
#include <stdexcept>
#include <string>
#include <string_view>

// An arbitrary fixed string: any bytes with a NUL inside the storage.
// Returns its length; the bytes after the NUL stay arbitrary.
template <size_t N> size_t any_string(Xsmp::String<N> &s, const char *name) {
  char raw[N + 1];
  __spec_fillbuf(raw, N + 1, name);
  size_t len = spec::nondet<size_t>("len");
  if (__spec_native()) { // concrete runs: make the generated state valid
    len %= N + 1;
    for (size_t i = 0; i < len; ++i)
      if (!raw[i])
        raw[i] = 'a';
    raw[len] = 0;
  }
  REQUIRES(len <= N);
  REQUIRES(raw[len] == 0);
  REQUIRES(spec::all(0, len, [&](size_t i) { return raw[i] != 0; }));
  memcpy(s.internalString, raw, N + 1);
  return len;
}
// snapshot of the content
template <size_t N> struct Snap {
  char c[N + 1];
  size_t len;
  Snap(const Xsmp::String<N> &s, size_t l) : len(l) {
    memcpy(c, s.internalString, N + 1);
  }
  std::string_view view() const { return {c, len}; }
};
// s holds exactly the len bytes at p (observable value), NUL-terminated
template <size_t N>
void ensure_content(const Xsmp::String<N> &s, const char *p, size_t len) {
  ENSURES(s.internalString[len] == '\0');
  ENSURES(spec::all(0, len, [&](size_t i) {
    return (s.internalString[i] == p[i]) & (s.internalString[i] != 0);
  }));
}
// an arbitrary byte sequence of arbitrary length (may contain NULs)
inline std::string_view any_view(const char *name) {
  size_t n = spec::nondet<size_t>("n");
  if (__spec_native())
    n %= n & 0x100 ? 20 : n & 0x7000 ? 400 : 70000;
  REQUIRES(n < (size_t(1) << 40));
  return {spec::bytes(n, name), n};
}
// length of the text in v cut at the first NUL and at cap
inline size_t text_len(std::string_view v, size_t cap) {
  size_t m = spec::nondet<size_t>("textlen");
  size_t lim = v.size() < cap ? v.size() : cap;
  if (__spec_native()) {
    m = 0;
    while (m < lim && v[m])
      ++m;
  }
  REQUIRES(m <= lim);
  REQUIRES(spec::all(0, m, [&](size_t i) { return v.data()[i] != 0; }));
  if (m < lim)
    REQUIRES(v.data()[m] == 0);
  return m;
}
#endif
