// Objects with names, and what a collection of them shows.
#ifndef VERIF_COLLECTION_COMMON_H
#define VERIF_COLLECTION_COMMON_H
#include "smp_common.h"
inline int below(int n, const char *name) {
  int i = 0;
  while (i + 1 < n && __spec_choose(name))
    ++i;
  return i;
}
// one of four names, at an address of its own
struct OneName {
  char a[3] = "ab", b[2] = "a", c[2] = "b", d[3] = "AB";
  spec::CStr pick(int n, const char *name) {
    int k = below(n, name);
    return k == 0 ? spec::CStr{a, 2} : k == 1 ? spec::CStr{b, 1} : k == 2 ? spec::CStr{c, 1} : spec::CStr{d, 2};
  }
};
struct Names { // of three objects: each is new or one of those before
  OneName o[3];
  spec::CStr n[3] = {o[0].pick(1, "a"), o[1].pick(2, "b"), o[2].pick(3, "c")};
  bool same(int i, int j) const { return n[i].len == n[j].len && memcmp(n[i].p, n[j].p, n[i].len) == 0; }
};
// what is in it, in this order
template <class C, class T> void holds(const C &c, T *const *e, const int *in, int count) {
  ENSURES(c.size() == size_t(count));
  ENSURES(c.empty() == (count == 0));
  for (int i = 0; i < count; ++i)
    ENSURES(c.at(size_t(i)) == e[in[i]]);
  auto beyond = spec::nondet<size_t>("beyond");
  REQUIRES(beyond >= size_t(count));
  ENSURES(c.at(beyond) == nullptr);
  int i = 0;
  for (auto *x : c) {
    ENSURES(i < count && x == e[in[i]]);
    ++i;
  }
  ENSURES(i == count);
}
#endif
