// Fixed-capacity string: construction and assignment keep the longest prefix
// that fits, always NUL-terminated, never touching anything else.
#include "string_common.h"
using Xsmp::String;

template <size_t N> void default_ctor() {
  String<N> s;
  ENSURES(s.size() == 0);
  ENSURES(s.empty());
  ENSURES(s.internalString[0] == 0);
}
template <size_t N> void ctor_cstr() {
  auto c = spec::cstr("src");
  String<N> s{c.p};
  size_t m = c.len < N ? c.len : N;
  ensure_content(s, c.p, m);
  ENSURES(s.size() == m);
}
template <size_t N> void ctor_view() {
  auto v = any_view("src");
  size_t m = text_len(v, N);
  String<N> s{v};
  ensure_content(s, v.data(), m);
  ENSURES(s.size() == m);
}
template <size_t N> void ctor_ptr_len() {
  auto v = any_view("src");
  size_t m = text_len(v, N);
  String<N> s{v.data(), v.size()};
  ensure_content(s, v.data(), m);
}
template <size_t N> void ctor_std_string() {
  auto v = any_view("src");
  size_t m = text_len(v, N);
  std::string x(v);
  String<N> s{x};
  ensure_content(s, v.data(), m);
  ENSURES(x.size() == v.size());
}
template <size_t N, size_t S> void ctor_other() {
  String<S> o;
  size_t l = any_string(o, "o");
  Snap<S> before(o, l);
  String<N> s{o};
  size_t m = l < N ? l : N;
  ensure_content(s, before.c, m);
  ENSURES(s.size() == m);
  ensure_content(o, before.c, l); // the source keeps its value
}
template <size_t N> void assign_view() {
  String<N> s;
  any_string(s, "s");
  auto v = any_view("src");
  size_t m = text_len(v, N);
  String<N> &r = s.assign(v);
  ENSURES(&r == &s);
  ensure_content(s, v.data(), m);
  ENSURES(s.size() == m);
}
template <size_t N> void assign_ptr_len() {
  String<N> s;
  any_string(s, "s");
  auto v = any_view("src");
  size_t m = text_len(v, N);
  String<N> &r = s.assign(v.data(), v.size());
  ENSURES(&r == &s);
  ensure_content(s, v.data(), m);
}
template <size_t N> void assign_cstr() {
  String<N> s;
  any_string(s, "s");
  auto c = spec::cstr("src");
  s = c.p;
  size_t m = c.len < N ? c.len : N;
  ensure_content(s, c.p, m);
  ENSURES(s.size() == m);
}
// assigning a part of the string to itself
template <size_t N> void assign_self_view() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  size_t pos = spec::nondet<size_t>("pos"), n = spec::nondet<size_t>("count");
  if (__spec_native()) {
    pos %= l + 1;
    n %= l - pos + 1;
  }
  REQUIRES(pos <= l);
  REQUIRES(n <= l - pos);
  s.assign(std::string_view{s.c_str() + pos, n});
  ensure_content(s, before.c + pos, n);
  ENSURES(s.size() == n);
}
template <size_t N, size_t S> void assign_other() {
  String<N> s;
  any_string(s, "s");
  String<S> o;
  size_t l = any_string(o, "o");
  Snap<S> before(o, l);
  String<N> &r = s.assign(o);
  ENSURES(&r == &s);
  size_t m = l < N ? l : N;
  ensure_content(s, before.c, m);
  ensure_content(o, before.c, l);
  ENSURES(s.size() == m);
}
template <size_t N, size_t S> void assign_op_other() {
  String<N> s;
  any_string(s, "s");
  String<S> o;
  size_t l = any_string(o, "o");
  Snap<S> before(o, l);
  String<N> &r = (s = o);
  ENSURES(&r == &s);
  size_t m = l < N ? l : N;
  ensure_content(s, before.c, m);
  ensure_content(o, before.c, l);
}
template <size_t N> void copy_same() {
  String<N> o;
  size_t l = any_string(o, "o");
  Snap<N> before(o, l);
  String<N> s{o};
  ensure_content(s, before.c, l);
  String<N> t;
  any_string(t, "t");
  t = o;
  ensure_content(t, before.c, l);
  t = *&t; // self-assignment
  ensure_content(t, before.c, l);
  ensure_content(o, before.c, l);
}
template <size_t N> void observers() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  const String<N> &c = s;
  ENSURES(s.size() == l);
  ENSURES(s.length() == l);
  ENSURES(s.empty() == (l == 0));
  ENSURES(s.max_size() == N);
  ENSURES(s.data() == s.internalString);
  ENSURES(s.c_str() == s.internalString);
  ENSURES(c.data() == s.internalString);
  ENSURES(s.begin() == s.internalString);
  ENSURES(s.end() == s.internalString + l);
  ENSURES(c.begin() == s.internalString);
  ENSURES(c.end() == s.internalString + l);
  ENSURES(c.cbegin() == s.internalString);
  ENSURES(c.cend() == s.internalString + l);
  ENSURES(s.rbegin().base() == s.internalString + l);
  ENSURES(s.rend().base() == s.internalString);
  ENSURES(c.rbegin().base() == s.internalString + l);
  ENSURES(c.rend().base() == s.internalString);
  ENSURES(c.crbegin().base() == s.internalString + l);
  ENSURES(c.crend().base() == s.internalString);
  ENSURES(&s.front() == s.internalString);
  ENSURES(&c.front() == s.internalString);
  if (l > 0) {
    ENSURES(&s.back() == s.internalString + (l - 1));
    ENSURES(&c.back() == s.internalString + (l - 1));
  }
  size_t i = spec::nondet<size_t>("i");
  if (__spec_native())
    i %= N + 1;
  REQUIRES(i <= N);
  ENSURES(&s[i] == s.internalString + i);
  ENSURES(&c[i] == s.internalString + i);
  ensure_content(s, before.c, l);
}
template <size_t N> void at() {
  String<N> s;
  size_t l = any_string(s, "s");
  Snap<N> before(s, l);
  size_t i = spec::nondet<size_t>("i");
  if (spec::nondet<bool>("const")) {
    const String<N> &c = s;
    try {
      const char &r = c.at(i);
      ENSURES(i < l);
      ENSURES(&r == s.internalString + i);
    } catch (const std::out_of_range &) {
      ENSURES(i >= l);
    }
  } else {
    try {
      char &r = s.at(i);
      ENSURES(i < l);
      ENSURES(&r == s.internalString + i);
    } catch (const std::out_of_range &) {
      ENSURES(i >= l);
    }
  }
  ensure_content(s, before.c, l);
}
#define FAM(n)                                                                 \
  CONTRACT_T(C02, default_##n, default_ctor<n>)                                \
  CONTRACT_T(C02, ctor_cstr_##n, ctor_cstr<n>)                                 \
  CONTRACT_T(C02, ctor_view_##n, ctor_view<n>)                                 \
  CONTRACT_T(C02, ctor_ptr_len_##n, ctor_ptr_len<n>)                           \
  CONTRACT_T(C02, ctor_std_string_##n, ctor_std_string<n>)                     \
  CONTRACT_T(C02, assign_view_##n, assign_view<n>)                             \
  CONTRACT_T(C02, assign_ptr_len_##n, assign_ptr_len<n>)                       \
  CONTRACT_T(C02, assign_cstr_##n, assign_cstr<n>)                             \
  CONTRACT_T(C02, copy_same_##n, copy_same<n>)                                 \
  CONTRACT_T(C02, observers_##n, observers<n>)                                 \
  CONTRACT_T(C02, at_##n, at<n>)
FAM(1)
FAM(5)
FAM(16)
FAM(300)
CONTRACT_T(C02, assign_self_view_1, assign_self_view<1>)
CONTRACT_T(C02, assign_self_view_5, assign_self_view<5>)
CONTRACT_T(C02, assign_self_view_16, assign_self_view<16>)
#ifdef SPEC_THOROUGH
CONTRACT_T(C02, assign_self_view_300, assign_self_view<300>)
#endif
#define PAIR(n, m)                                                             \
  CONTRACT_T(C02, ctor_other_##n##_##m, ctor_other<n, m>)                      \
  CONTRACT_T(C02, assign_other_##n##_##m, assign_other<n, m>)                  \
  CONTRACT_T(C02, assign_op_other_##n##_##m, assign_op_other<n, m>)
PAIR(1, 5)
PAIR(5, 1)
PAIR(5, 16)
PAIR(16, 5)
PAIR(16, 300)
PAIR(300, 16)
