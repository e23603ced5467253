// Array behaves as the standard fixed-size array over its elements.
#include "spec.h"
#include <algorithm>
#include <Xsmp/Array.h>
#include <Xsmp/String.h>
#include <array>
#include <stdexcept>
#include <utility>
using Xsmp::Array;

namespace {
// a class type with its own equality, order and observable copies
struct Rec {
  int key;
  unsigned char tag;
  int junk; // takes no part in comparisons
  friend bool operator==(const Rec &a, const Rec &b) {
    return (a.key == b.key) & (a.tag == b.tag);
  }
  friend bool operator<(const Rec &a, const Rec &b) {
    return (a.key < b.key) | ((a.key == b.key) & (a.tag < b.tag));
  }
};
template <class T, size_t N> void any_array(Array<T, N> &a, const char *name) {
  if constexpr (N != 0)
    __spec_nondet(&a, sizeof a, name);
  if constexpr (std::is_same_v<T, int> || std::is_same_v<T, unsigned char>)
    if (__spec_native()) // concrete runs: make equal elements likely
      for (size_t i = 0; i < N; ++i)
        a.internalArray[i] &= 1;
}
template <class T, size_t N>
std::array<T, N> copy_of(const Array<T, N> &a) {
  std::array<T, N> s;
  if constexpr (N != 0)
    memcpy(&s, &a, sizeof s);
  return s;
}
template <class T> bool same(const T &a, const T &b) { return a == b; }
template <> bool same(const double &a, const double &b) {
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}
template <> bool same(const Rec &a, const Rec &b) {
  return (a == b) & (a.junk == b.junk);
}
template <class T, size_t N>
void holds(const Array<T, N> &a, const std::array<T, N> &s) {
  ENSURES(spec::all(0, N, [&](size_t i) {
    return same(reinterpret_cast<const T *>(&a)[i],
                reinterpret_cast<const T *>(&s)[i]);
  }));
}
size_t any_index(size_t n, const char *name) {
  size_t i = spec::nondet<size_t>(name);
  if (__spec_native() && n)
    i %= n + 2;
  return i;
}
} // namespace

template <class T, size_t N> void access_() {
  Array<T, N> a;
  any_array(a, "a");
  auto s = copy_of(a);
  const auto &ca = a;
  auto *p = reinterpret_cast<T *>(&a);
  ENSURES(sizeof a == N * sizeof(T));
  ENSURES(a.size() == N);
  ENSURES(a.max_size() == N);
  ENSURES(!a.empty());
  ENSURES(a.data() == p);
  ENSURES(ca.data() == p);
  ENSURES(a.begin() == p);
  ENSURES(ca.begin() == p);
  ENSURES(a.cbegin() == p);
  ENSURES(a.end() == p + N);
  ENSURES(ca.end() == p + N);
  ENSURES(a.cend() == p + N);
  ENSURES(&a.front() == p);
  ENSURES(&ca.front() == p);
  ENSURES(&a.back() == p + N - 1);
  ENSURES(&ca.back() == p + N - 1);
  ENSURES(&*a.rbegin() == p + N - 1);
  ENSURES(&*ca.rbegin() == p + N - 1);
  ENSURES(&*a.crbegin() == p + N - 1);
  ENSURES(a.rend().base() == p);
  ENSURES(ca.rend().base() == p);
  ENSURES(a.crend().base() == p);
  size_t i = any_index(N, "i");
  REQUIRES(i < N);
  ENSURES(&a[i] == p + i);
  ENSURES(&ca[i] == p + i);
  holds(a, s);
}
// checked access throws for every index past the end and only for those
template <class T, size_t N> void at_() {
  Array<T, N> a;
  any_array(a, "a");
  auto s = copy_of(a);
  const auto &ca = a;
  size_t i = any_index(N, "i");
  bool thrown = false;
  try {
    ENSURES(&a.at(i) == reinterpret_cast<T *>(&a) + i);
    ENSURES(i < N);
  } catch (const std::out_of_range &) {
    thrown = true;
  }
  ENSURES(thrown == (i >= N));
  thrown = false;
  try {
    ENSURES(&ca.at(i) == reinterpret_cast<const T *>(&a) + i);
    ENSURES(i < N);
  } catch (const std::out_of_range &) {
    thrown = true;
  }
  ENSURES(thrown == (i >= N));
  holds(a, s);
}
template <class T, size_t N> void fill_() {
  Array<T, N> a;
  any_array(a, "a");
  T v;
  __spec_nondet(&v, sizeof v, "v");
  T old = v;
  a.fill(v);
  ENSURES(spec::all(0, N, [&](size_t i) {
    return same(reinterpret_cast<const T *>(&a)[i], old);
  }));
  ENSURES(same(v, old));
}
// filling with one of its own elements
template <class T, size_t N> void fill_own() {
  Array<T, N> a;
  any_array(a, "a");
  size_t i = any_index(N, "i");
  REQUIRES(i < N);
  T old = reinterpret_cast<T *>(&a)[i];
  a.fill(a[i]);
  ENSURES(spec::all(0, N, [&](size_t k) {
    return same(reinterpret_cast<const T *>(&a)[k], old);
  }));
}
template <class T, size_t N> void swap_() {
  Array<T, N> a, b;
  any_array(a, "a");
  any_array(b, "b");
  auto sa = copy_of(a), sb = copy_of(b);
  a.swap(b);
  holds(a, sb);
  holds(b, sa);
  std::swap(a, b);
  holds(a, sa);
  holds(b, sb);
  a.swap(a);
  holds(a, sa);
}
template <class T, size_t N> void copy_() {
  Array<T, N> a;
  any_array(a, "a");
  auto s = copy_of(a);
  Array<T, N> b = a;
  holds(b, s);
  Array<T, N> c;
  any_array(c, "c");
  c = a;
  holds(c, s);
  b[0] = c[N - 1];
  holds(a, s);
}
template <class T, size_t N> void iterate_() {
  Array<T, N> a;
  any_array(a, "a");
  auto s = copy_of(a);
  size_t k = 0;
  for (auto &x : a) {
    ENSURES(&x == reinterpret_cast<T *>(&a) + k);
    ++k;
  }
  ENSURES(k == N);
  for (auto it = a.rbegin(); it != a.rend(); ++it) {
    --k;
    ENSURES(&*it == reinterpret_cast<T *>(&a) + k);
  }
  ENSURES(k == 0);
  holds(a, s);
}
template <class T, size_t N> void compare_() {
  Array<T, N> a, b;
  any_array(a, "a");
  any_array(b, "b");
  auto sa = copy_of(a), sb = copy_of(b);
  bool eq = sa == sb, lt = sa < sb, gt = sb < sa;
  ENSURES((a == b) == eq);
  ENSURES((a != b) == !eq);
  ENSURES((a < b) == lt);
  ENSURES((a > b) == gt);
  ENSURES((a <= b) == !gt);
  ENSURES((a >= b) == !lt);
  holds(a, sa);
  holds(b, sb);
}
template <class T, size_t N> void equality_() { // for any size, element-wise
  Array<T, N> a, b;
  any_array(a, "a");
  any_array(b, "b");
  bool eq = spec::all(0, N, [&](size_t i) {
    return reinterpret_cast<const T *>(&a)[i] ==
           reinterpret_cast<const T *>(&b)[i];
  });
  ENSURES((a == b) == eq);
  ENSURES((a != b) == !eq);
}
template <class T> void empty_() {
  Array<T, 0> a{}, b{};
  const auto &ca = a;
  ENSURES(a.empty());
  ENSURES(a.size() == 0);
  ENSURES(a.max_size() == 0);
  ENSURES(a.begin() == a.end());
  ENSURES(ca.begin() == ca.end());
  ENSURES(a.cbegin() == a.cend());
  ENSURES(a.rbegin() == a.rend());
  ENSURES(a.crbegin() == a.crend());
  T v;
  __spec_nondet(&v, sizeof v, "v");
  a.fill(v);
  a.swap(b);
  ENSURES(a == b);
  ENSURES(!(a != b));
  ENSURES(!(a < b));
  ENSURES(a <= b);
  ENSURES(a >= b);
  ENSURES(!(a > b));
  size_t i = spec::nondet<size_t>("i");
  int thrown = 0;
  try {
    (void)a.at(i);
  } catch (const std::out_of_range &) {
    ++thrown;
  }
  try {
    (void)ca.at(i);
  } catch (const std::out_of_range &) {
    ++thrown;
  }
  ENSURES(thrown == 2);
  int seen = 0;
  for (auto &x : a) {
    (void)x;
    ++seen;
  }
  ENSURES(seen == 0);
}
// arrays of arrays and of strings
CONTRACT(C06, nested) {
  Array<Array<int, 2>, 3> a{}, b{};
  __spec_nondet(&a, sizeof a, "a");
  __spec_nondet(&b, sizeof b, "b");
  int s[6], t[6];
  memcpy(s, &a, sizeof s);
  memcpy(t, &b, sizeof t);
  size_t i = any_index(3, "i"), j = any_index(2, "j");
  bool thrown = false;
  try {
    ENSURES(a.at(i).at(j) == s[i * 2 + j]);
    ENSURES((i < 3) & (j < 2));
  } catch (const std::out_of_range &) {
    thrown = true;
  }
  ENSURES(thrown == ((i >= 3) | (j >= 2)));
  bool eq = memcmp(s, t, sizeof s) == 0;
  ENSURES((a == b) == eq);
  a.swap(b);
  ENSURES(memcmp(&a, t, sizeof t) == 0);
  ENSURES(memcmp(&b, s, sizeof s) == 0);
  Array<int, 2> v{};
  __spec_nondet(&v, sizeof v, "v");
  a.fill(v);
  ENSURES(spec::all(0, 6, [&](size_t k) {
    return reinterpret_cast<int *>(&a)[k] == reinterpret_cast<int *>(&v)[k % 2];
  }));
}
// moving elements in and out, with no element lost or duplicated
namespace {
struct Owner {
  int *p = nullptr;
  Owner() = default;
  explicit Owner(int v) : p(new int(v)) {}
  Owner(Owner &&o) noexcept : p(o.p) { o.p = nullptr; }
  Owner &operator=(Owner &&o) noexcept {
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Owner() { delete p; }
};
} // namespace
CONTRACT(C06, swap_owning) {
  size_t live = __spec_live();
  {
    int v[4];
    __spec_nondet(v, sizeof v, "v");
    Array<Owner, 2> a{Owner(v[0]), Owner(v[1])}, b{Owner(v[2]), Owner(v[3])};
    a.swap(b);
    ENSURES(*a[0].p == v[2]);
    ENSURES(*a[1].p == v[3]);
    ENSURES(*b[0].p == v[0]);
    ENSURES(*b[1].p == v[1]);
    ENSURES(__spec_live() == live + 4);
    Array<Owner, 2> c = std::move(a);
    ENSURES(*c[0].p == v[2]);
    ENSURES(*c[1].p == v[3]);
    ENSURES(__spec_live() == live + 4);
    c = std::move(b);
    ENSURES(*c[0].p == v[0]);
    ENSURES(*c[1].p == v[1]);
    ENSURES(__spec_live() == live + 2);
  }
  ENSURES(__spec_live() == live);
}
namespace {
struct ThrowingSwap {
  int v;
  friend void swap(ThrowingSwap &, ThrowingSwap &) noexcept(false) {}
};
} // namespace
CONTRACT(C06, construction) {
  int v[3];
  __spec_nondet(v, sizeof v, "v");
  Array a{v[0], v[1], v[2]};
  ENSURES(std::is_same_v<decltype(a), Array<int, 3>>);
  ENSURES(a[0] == v[0]);
  ENSURES(a[1] == v[1]);
  ENSURES(a[2] == v[2]);
  Array<int, 3> z{};
  ENSURES((z[0] | z[1] | z[2]) == 0);
  Array<int, 3>::simple s{{v[0], v[1], v[2]}};
  ENSURES(s.size() == 3);
  ENSURES(s[2] == v[2]);
  ENSURES(noexcept(a.swap(a)));
  ENSURES(!noexcept(std::declval<Array<ThrowingSwap, 2> &>().swap(
      std::declval<Array<ThrowingSwap, 2> &>())));
  ENSURES(noexcept(std::declval<Array<ThrowingSwap, 0> &>().swap(
      std::declval<Array<ThrowingSwap, 0> &>())));
}
#define FAM(tn, n, ...)                                                        \
  CONTRACT_T(C06, access_##tn##_##n, access_<__VA_ARGS__, n>)                  \
  CONTRACT_T(C06, at_##tn##_##n, at_<__VA_ARGS__, n>)                          \
  CONTRACT_T(C06, fill_##tn##_##n, fill_<__VA_ARGS__, n>)                      \
  CONTRACT_T(C06, fill_own_##tn##_##n, fill_own<__VA_ARGS__, n>)               \
  CONTRACT_T(C06, swap_##tn##_##n, swap_<__VA_ARGS__, n>)                      \
  CONTRACT_T(C06, copy_##tn##_##n, copy_<__VA_ARGS__, n>)                      \
  CONTRACT_T(C06, iterate_##tn##_##n, iterate_<__VA_ARGS__, n>)                \
  CONTRACT_T(C06, equality_##tn##_##n, equality_<__VA_ARGS__, n>)              \
  CONTRACT_T(C06, compare_##tn##_##n, compare_<__VA_ARGS__, n>)
FAM(int, 1, int)
FAM(int, 3, int)
FAM(int, 8, int)
FAM(byte, 1, unsigned char)
FAM(byte, 5, unsigned char)
FAM(byte, 40, unsigned char)
FAM(double, 3, double)
FAM(rec, 3, Rec)
CONTRACT_T(C06, empty_int, empty_<int>)
CONTRACT_T(C06, empty_byte, empty_<unsigned char>)
CONTRACT_T(C06, empty_rec, empty_<Rec>)
#ifdef SPEC_THOROUGH
FAM(int, 16, int)
FAM(double, 8, double)
FAM(rec, 6, Rec)
FAM(byte, 300, unsigned char)
#endif
