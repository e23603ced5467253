// Contract language.
//
// A contract is a C++ function: it builds an arbitrary pre-state, states the
// preconditions with REQUIRES, calls the real code, and states postconditions
// and frame conditions with ENSURES.  The verifier (engine/vcgen) gives the
// __spec_* primitives their logical meaning (all values, unbounded quantifier);
// native/runtime.cpp gives them a concrete meaning, used only to replay a
// counterexample on the real code.
#ifndef VERIF_SPEC_H
#define VERIF_SPEC_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <type_traits>

extern "C" {
void __spec_assume(bool);
void __spec_assert(bool, const char *);
void __spec_nondet(void *, size_t, const char *);
void __spec_fillbuf(void *, size_t, const char *);
void *__spec_buf(size_t, const char *);
char *__spec_cstr(size_t *, const char *);
bool __spec_forall(size_t, size_t, bool (*)(void *, size_t), void *);
void __spec_readonly(const void *, unsigned long);
size_t __spec_live();
void __spec_bad_alloc(int);
bool __spec_valid(const void *, size_t);
bool __spec_same_object(const void *, const void *);
bool __spec_heap_array(const void *);
void __spec_kill(const void *);
void __spec_cover(const char *);
bool __spec_choose(const char *);
bool __spec_native();
void __spec_fail(const char *);
}

namespace spec {
template <class T> inline T nondet(const char *name) {
  if constexpr (std::is_same_v<T, bool>) {
    unsigned char c;
    __spec_nondet(&c, 1, name);
    return (c & 1) != 0;
  } else {
    T v;
    __spec_nondet(&v, sizeof(T), name);
    return v;
  }
}
// an arbitrary NUL-terminated string of arbitrary length, exactly allocated,
// which the code under contract must not modify
struct CStr {
  const char *p;
  size_t len;
};
inline CStr cstr(const char *name) {
  CStr c;
  c.p = __spec_cstr(&c.len, name);
  __spec_readonly(c.p, 1);
  return c;
}
// an arbitrary byte buffer of exactly n bytes, read-only for the code
inline const char *bytes(size_t n, const char *name) {
  auto *p = static_cast<const char *>(__spec_buf(n, name));
  __spec_readonly(p, 1);
  return p;
}
inline char *rwbytes(size_t n, const char *name) {
  return static_cast<char *>(__spec_buf(n, name));
}
template <class P> inline bool all(size_t lo, size_t hi, P p) {
  return __spec_forall(
      lo, hi,
      [](void *c, size_t i) -> bool { return (*static_cast<P *>(c))(i); }, &p);
}
template <class P> inline bool any(size_t lo, size_t hi, P p) {
  return !all(lo, hi, [&](size_t i) { return !p(i); });
}
inline bool implies(bool a, bool b) { return !a | b; }
struct Discard {};
} // namespace spec

#define REQUIRES(...) __spec_assume((__VA_ARGS__))
#define ENSURES(...) __spec_assert((__VA_ARGS__), #__VA_ARGS__)
#define COVER(n) __spec_cover(n)

#ifdef SPEC_NATIVE
namespace spec {
struct Reg {
  Reg(const char *n, void (*f)());
};
} // namespace spec
#define SPEC_REG(n) static ::spec::Reg reg_##n(#n, n);
#else
#define SPEC_REG(n)
#endif
#define CONTRACT(PROP, NAME)                                                   \
  extern "C" void contract__##PROP##__##NAME();                                \
  SPEC_REG(contract__##PROP##__##NAME)                                         \
  extern "C" void contract__##PROP##__##NAME()
// instantiate a contract template: CONTRACT_T(C01, name_suffix, body<args>)
#define CONTRACT_T(PROP, NAME, ...)                                            \
  CONTRACT(PROP, NAME) { __VA_ARGS__(); }
#endif
