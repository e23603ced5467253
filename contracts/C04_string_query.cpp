// Fixed-capacity string: searching, sub-views, comparison, hashing,
// concatenation and streaming agree with the text it holds.
// @models: models_stream.cpp
#include "string_common.h"
#include "stream_ghost.h"
using Xsmp::String;
using sv = std::string_view;

// an arbitrary string x, a snapshot x_c of its content (length x_l), seen as x_v
#define TEXT(N, x, nm)                                                         \
  String<N> x;                                                                 \
  size_t x##_l = any_string(x, nm);                                            \
  char x##_c[N + 1];                                                           \
  memcpy(x##_c, x.internalString, N + 1);                                      \
  sv x##_v { x##_c, x##_l }
#define UNCHANGED(x) ensure_content(x, x##_c, x##_l)
inline size_t any_pos() { return spec::nondet<size_t>("pos"); }
// a needle of 0..K arbitrary bytes in a buffer of exactly that size
template <size_t K> sv needle() {
  size_t n = spec::nondet<size_t>("n");
  if (__spec_native())
    n %= K + 1;
  REQUIRES(n <= K);
  return {spec::bytes(n, "needle"), n};
}
// a NUL-terminated needle of 0..K bytes
template <size_t K> sv needle_cstr() {
  char *raw = spec::rwbytes(K + 1, "needle");
  raw[K] = 0;
  size_t n = spec::nondet<size_t>("n");
  if (__spec_native()) {
    n = 0;
    while (raw[n])
      ++n;
  }
  REQUIRES(n <= K);
  REQUIRES(raw[n] == 0);
  REQUIRES(spec::all(0, n, [&](size_t i) { return raw[i] != 0; }));
  __spec_readonly(raw, 1);
  return {raw, n};
}
#define FIND(fn, DEF)                                                          \
  template <size_t N, size_t K> void fn##_view() {                             \
    TEXT(N, s, "s");                                                           \
    sv v = needle<K>();                                                        \
    size_t pos = any_pos();                                                    \
    ENSURES(s.fn(v, pos) == s_v.fn(v, pos));                                   \
    UNCHANGED(s);                                                              \
  }                                                                            \
  template <size_t N, size_t K> void fn##_view_all() {                         \
    TEXT(N, s, "s");                                                           \
    sv v = needle<K>();                                                        \
    ENSURES(s.fn(v) == s_v.fn(v, DEF));                                        \
  }                                                                            \
  template <size_t N, size_t K> void fn##_char() {                             \
    TEXT(N, s, "s");                                                           \
    char c = spec::nondet<char>("c");                                          \
    size_t pos = any_pos();                                                    \
    ENSURES(s.fn(c, pos) == s_v.fn(c, pos));                                   \
    ENSURES(s.fn(c) == s_v.fn(c, DEF));                                        \
    UNCHANGED(s);                                                              \
  }                                                                            \
  template <size_t N, size_t K> void fn##_ptr_n() {                            \
    TEXT(N, s, "s");                                                           \
    sv v = needle<K>();                                                        \
    size_t pos = any_pos();                                                    \
    ENSURES(s.fn(v.data(), pos, v.size()) == s_v.fn(v, pos));                  \
  }                                                                            \
  template <size_t N, size_t K> void fn##_cstr() {                             \
    TEXT(N, s, "s");                                                           \
    sv w = needle_cstr<K>();                                                   \
    size_t pos = any_pos();                                                    \
    ENSURES(s.fn(w.data(), pos) == s_v.fn(w, pos));                            \
  }                                                                            \
  template <size_t N, size_t K> void fn##_cstr_all() {                         \
    TEXT(N, s, "s");                                                           \
    sv w = needle_cstr<K>();                                                   \
    ENSURES(s.fn(w.data()) == s_v.fn(w, DEF));                                 \
  }
FIND(find, 0)
FIND(rfind, sv::npos)
FIND(find_first_of, 0)
FIND(find_last_of, sv::npos)
FIND(find_first_not_of, 0)
FIND(find_last_not_of, sv::npos)

template <size_t N> void substr_() {
  TEXT(N, t, "s");
  size_t pos = any_pos(), n = spec::nondet<size_t>("n");
  try {
    sv r = t.substr(pos, n);
    ENSURES(pos <= t_l);
    ENSURES(r.data() == t.c_str() + pos);
    ENSURES(r.size() == (n < t_l - pos ? n : t_l - pos));
    sv q = t.substr(pos);
    ENSURES(q.data() == t.c_str() + pos);
    ENSURES(q.size() == t_l - pos);
    sv w = t.substr();
    ENSURES(w.data() == t.c_str());
    ENSURES(w.size() == t_l);
  } catch (const std::out_of_range &) {
    ENSURES(pos > t_l);
  }
  UNCHANGED(t);
}
inline int sign(int x) { return (x > 0) - (x < 0); }
template <size_t N, size_t M> void compare_strings() {
  TEXT(N, a, "s");
  TEXT(M, b, "t");
  int r = sign(a_v.compare(b_v));
  ENSURES(sign(a.compare(b)) == r);
  ENSURES((a == b) == (r == 0));
  ENSURES((a != b) == (r != 0));
  ENSURES((a < b) == (r < 0));
  ENSURES((a > b) == (r > 0));
  ENSURES((a <= b) == (r <= 0));
  ENSURES((a >= b) == (r >= 0));
  UNCHANGED(a);
  UNCHANGED(b);
}
// a sequence of up to K bytes, or (K == 0) of any length
template <size_t K> sv other() {
  if constexpr (K == 0)
    return any_view("w");
  else
    return needle<K>();
}
template <size_t N, size_t K> void compare_view() {
  TEXT(N, a, "s");
  sv w = other<K>();
  int r = sign(a_v.compare(w));
  ENSURES(sign(a.compare(w)) == r);
  UNCHANGED(a);
}
template <size_t N, size_t K> void equal_view() {
  TEXT(N, a, "s");
  sv w = other<K>();
  bool r = a_v == w;
  ENSURES((a == w) == r);
  ENSURES((w == a) == r);
  ENSURES((a != w) == !r);
  ENSURES((w != a) == !r);
}
template <size_t N, size_t K> void less_view() {
  TEXT(N, a, "s");
  sv w = other<K>();
  int r = sign(a_v.compare(w));
  ENSURES((a < w) == (r < 0));
  ENSURES((w < a) == (r > 0));
  ENSURES((a > w) == (r > 0));
  ENSURES((w > a) == (r < 0));
}
template <size_t N, size_t K> void lesseq_view() {
  TEXT(N, a, "s");
  sv w = other<K>();
  int r = sign(a_v.compare(w));
  ENSURES((a <= w) == (r <= 0));
  ENSURES((w <= a) == (r >= 0));
  ENSURES((a >= w) == (r >= 0));
  ENSURES((w >= a) == (r <= 0));
}
template <size_t N, size_t K> void compare_cstr() {
  TEXT(N, a, "s");
  sv wv = needle_cstr<K>();
  const char *w = wv.data();
  int r = sign(a_v.compare(wv));
  ENSURES((a <= w) == (r <= 0));
  ENSURES((w <= a) == (r >= 0));
  UNCHANGED(a);
}
// equal texts have equal hashes, whatever the storage after the text holds
template <size_t N> void hash_() {
  TEXT(N, a, "s");
  TEXT(N, b, "t");
  REQUIRES(a_l == b_l);
  REQUIRES(spec::all(0, a_l, [&](size_t i) {
    return a_c[i] == b_c[i];
  }));
  std::hash<String<N>> h;
  ENSURES(h(a) == h(b));
  UNCHANGED(a);
}
inline void ensure_concat(const std::string &r, sv a, sv b) {
  ENSURES(r.size() == a.size() + b.size());
  ENSURES(spec::all(0, a.size(), [&](size_t i) { return r.data()[i] == a.data()[i]; }));
  size_t la = a.size();
  ENSURES(spec::all(0, b.size(),
                    [&](size_t i) { return r.data()[la + i] == b.data()[i]; }));
}
template <size_t N, size_t M> void plus_strings() {
  TEXT(N, a, "s");
  TEXT(M, b, "t");
  size_t live = __spec_live();
  {
    std::string r = a + b;
    ensure_concat(r, a_v, b_v);
  }
  ENSURES(__spec_live() == live);
  UNCHANGED(a);
  UNCHANGED(b);
}
template <size_t N, size_t K> void plus_view() {
  TEXT(N, a, "s");
  sv v = needle<K>();
  {
    std::string r = a + v;
    ensure_concat(r, a_v, v);
  }
  UNCHANGED(a);
}
template <size_t N, size_t K> void view_plus() {
  TEXT(N, a, "s");
  sv v = needle<K>();
  {
    std::string r = v + a;
    ensure_concat(r, v, a_v);
  }
  UNCHANGED(a);
}
template <size_t N> void plus_char() {
  TEXT(N, a, "s");
  char c = spec::nondet<char>("c");
  std::string r = a + c;
  ensure_concat(r, a_v, sv{&c, 1});
  std::string q = c + a;
  ensure_concat(q, sv{&c, 1}, a_v);
  UNCHANGED(a);
}
// formatted output writes exactly the text
template <size_t N> void stream_out() {
  TEXT(N, a, "s");
  ghost::OStream o;
  std::ostream &r = (o.os() << a);
  ENSURES(&r == &o.os());
  sv w = o.written();
  ENSURES(w.size() == a_l);
  ENSURES(spec::all(0, a_l, [&](size_t i) { return w.data()[i] == a_c[i]; }));
  UNCHANGED(a);
}
// formatted input stores the extracted word, cut to the capacity
template <size_t N> void stream_in() {
  TEXT(N, a, "s");
  ghost::IStream in;
  std::istream &r = (in.is() >> a);
  ENSURES(&r == &in.is());
  sv w = in.word();
  size_t m = text_len(w, N);
  ensure_content(a, w.data(), m);
}
#define FINDS(fn, n, k)                                                        \
  CONTRACT_T(C04, fn##_view_##n##_##k, fn##_view<n, k>)                        \
  CONTRACT_T(C04, fn##_view_all_##n##_##k, fn##_view_all<n, k>)                \
  CONTRACT_T(C04, fn##_cstr_all_##n##_##k, fn##_cstr_all<n, k>)                \
  CONTRACT_T(C04, fn##_char_##n##_##k, fn##_char<n, k>)                        \
  CONTRACT_T(C04, fn##_ptr_n_##n##_##k, fn##_ptr_n<n, k>)                      \
  CONTRACT_T(C04, fn##_cstr_##n##_##k, fn##_cstr<n, k>)
#define ALLFINDS(n, k)                                                         \
  FINDS(find, n, k)                                                            \
  FINDS(rfind, n, k)                                                           \
  FINDS(find_first_of, n, k)                                                   \
  FINDS(find_last_of, n, k)                                                    \
  FINDS(find_first_not_of, n, k)                                               \
  FINDS(find_last_not_of, n, k)
ALLFINDS(3, 3)
#define FAM(n)                                                                 \
  CONTRACT_T(C04, substr_##n, substr_<n>)                                      \
  CONTRACT_T(C04, compare_view_##n, compare_view<n, 0>)                        \
  CONTRACT_T(C04, equal_view_##n, equal_view<n, 0>)                            \
  CONTRACT_T(C04, less_view_##n, less_view<n, 0>)                              \
  CONTRACT_T(C04, lesseq_view_##n, lesseq_view<n, 0>)                          \
  CONTRACT_T(C04, compare_cstr_##n, compare_cstr<n, 6>)                        \
  CONTRACT_T(C04, hash_##n, hash_<n>)                                          \
  CONTRACT_T(C04, plus_view_##n, plus_view<n, 4>)                              \
  CONTRACT_T(C04, view_plus_##n, view_plus<n, 4>)                              \
  CONTRACT_T(C04, plus_char_##n, plus_char<n>)                                 \
  CONTRACT_T(C04, stream_out_##n, stream_out<n>)                               \
  CONTRACT_T(C04, stream_in_##n, stream_in<n>)
FAM(5)
FAM(20)
CONTRACT_T(C04, compare_5_5, compare_strings<5, 5>)
CONTRACT_T(C04, compare_5_20, compare_strings<5, 20>)
CONTRACT_T(C04, compare_20_5, compare_strings<20, 5>)
CONTRACT_T(C04, plus_5_20, plus_strings<5, 20>)
#ifdef SPEC_THOROUGH
ALLFINDS(5, 3)
CONTRACT_T(C04, compare_300_300, compare_strings<300, 300>)
#endif
