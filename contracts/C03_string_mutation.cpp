// Fixed-capacity string: append, push/pop, prefix/suffix removal, clear, swap.
#include "string_common.h"
using Xsmp::String;

// content is a[0,la) followed by b[0,lb)
template <size_t N>
void ensure_concat(const String<N> &s, const char *a, size_t la, const char *b,
                   size_t lb) {
  ENSURES(la + lb <= N);
  ENSURES(s.internalString[la + lb] == 0);
  ENSURES(spec::all(0, la, [&](size_t i) {
    return (s.internalString[i] == a[i]) & (s.internalString[i] != 0);
  }));
  ENSURES(spec::all(0, lb, [&](size_t i) {
    return (s.internalString[la + i] == b[i]) & (s.internalString[la + i] != 0);
  }));
  ENSURES(s.size() == la + lb);
}
template <size_t N> void append_view() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  auto v = any_view("src");
  size_t m = text_len(v, N - l);
  String<N> &r = spec::nondet<bool>("op") ? s.append(v) : (s += v);
  ENSURES(&r == &s);
  ensure_concat(s, before.c, l, v.data(), m);
}
template <size_t N> void append_ptr_len() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  auto v = any_view("src");
  size_t m = text_len(v, N - l);
  String<N> &r = s.append(v.data(), v.size());
  ENSURES(&r == &s);
  ensure_concat(s, before.c, l, v.data(), m);
}
template <size_t N> void append_cstr() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  auto c = spec::cstr("src");
  s += c.p;
  size_t m = c.len < N - l ? c.len : N - l;
  ensure_concat(s, before.c, l, c.p, m);
}
template <size_t N, size_t S> void append_other() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  String<S> o;
  size_t k = any_string(o, "o");
  Snap<S> obefore(o, k);
  String<N> &r = spec::nondet<bool>("op") ? s.append(o) : (s += o);
  ENSURES(&r == &s);
  size_t m = k < N - l ? k : N - l;
  ensure_concat(s, before.c, l, obefore.c, m);
  ensure_content(o, obefore.c, k);
}
// appending a string, or a part of it, to itself
template <size_t N> void append_self() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  size_t pos = spec::nondet<size_t>("pos"), n = spec::nondet<size_t>("count");
  if (__spec_native()) {
    pos %= l + 1;
    n %= l - pos + 1;
  }
  REQUIRES(pos <= l);
  REQUIRES(n <= l - pos);
  s.append(std::string_view{s.c_str() + pos, n});
  ensure_concat(s, before.c, l, before.c + pos, n < N - l ? n : N - l);
}
template <size_t N> void append_self_whole() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  s += s;
  ensure_concat(s, before.c, l, before.c, l < N - l ? l : N - l);
}
template <size_t N> void push_back() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  char c = spec::nondet<char>("c");
  if (spec::nondet<bool>("op"))
    s.push_back(c);
  else {
    String<N> &r = (s += c);
    ENSURES(&r == &s);
  }
  ensure_concat(s, before.c, l, &c, l < N && c ? 1 : 0);
}
template <size_t N> void pop_back() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  s.pop_back();
  ensure_content(s, before.c, l ? l - 1 : 0);
  ENSURES(s.size() == (l ? l - 1 : 0));
}
template <size_t N> void remove_suffix() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  size_t n = spec::nondet<size_t>("n");
  s.remove_suffix(n);
  ensure_content(s, before.c, n < l ? l - n : 0);
  ENSURES(s.size() == (n < l ? l - n : 0));
}
template <size_t N> void remove_prefix() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  size_t n = spec::nondet<size_t>("n");
  s.remove_prefix(n);
  size_t k = n < l ? n : l;
  ensure_content(s, before.c + k, l - k);
  ENSURES(s.size() == l - k);
}
template <size_t N> void clear() {
  String<N> s;
  any_string(s, "s");
  s.clear();
  ENSURES(s.empty());
  ENSURES(s.size() == 0);
  ENSURES(s.c_str()[0] == 0);
}
template <size_t N> void swap_() {
  String<N> s, t;
  size_t l = any_string(s, "s"), k = any_string(t, "t");
  Snap<N> a(s, l), b(t, k);
  if (spec::nondet<bool>("free")) {
    using std::swap;
    swap(s, t);
  } else
    s.swap(t);
  ensure_content(s, b.c, k);
  ensure_content(t, a.c, l);
  s.swap(*&s);
  ensure_content(s, b.c, k);
}
#define FAM(n)                                                                 \
  CONTRACT_T(C03, append_view_##n, append_view<n>)                             \
  CONTRACT_T(C03, append_ptr_len_##n, append_ptr_len<n>)                       \
  CONTRACT_T(C03, append_cstr_##n, append_cstr<n>)                             \
  CONTRACT_T(C03, append_self_whole_##n, append_self_whole<n>)                 \
  CONTRACT_T(C03, push_back_##n, push_back<n>)                                 \
  CONTRACT_T(C03, pop_back_##n, pop_back<n>)                                   \
  CONTRACT_T(C03, remove_suffix_##n, remove_suffix<n>)                         \
  CONTRACT_T(C03, remove_prefix_##n, remove_prefix<n>)                         \
  CONTRACT_T(C03, clear_##n, clear<n>)
#define FAM2(n)                                                                \
  CONTRACT_T(C03, append_self_##n, append_self<n>)                             \
  CONTRACT_T(C03, swap_##n, swap_<n>)
#define PAIR(n, m) CONTRACT_T(C03, append_other_##n##_##m, append_other<n, m>)
FAM2(16)
FAM(16)
FAM(300)
PAIR(16, 5)
PAIR(5, 300)
FAM(5)
FAM2(5)
PAIR(5, 5)
FAM(1)
FAM2(1)
PAIR(1, 5)
PAIR(5, 1)
#ifdef SPEC_THOROUGH
FAM(40)
CONTRACT_T(C03, swap_300, swap_<300>)
PAIR(16, 40)
PAIR(40, 16)
#endif
