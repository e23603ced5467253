// Time values do exact nanosecond arithmetic.
// @flags: -I$V/smp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp
#include "spec.h"
#include <Smp/PrimitiveTypes.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <chrono>
#include <type_traits>
using Xsmp::DateTime;
using Xsmp::Duration;
namespace ch = std::chrono;
namespace {
int64_t any(const char *n) { return spec::nondet<int64_t>(n); }
// small enough for the sum or difference of two
int64_t half(const char *n) {
  auto v = any(n);
  REQUIRES(v >= INT64_MIN / 2 && v <= INT64_MAX / 2);
  return v;
}
int64_t val(const Duration &d) { return static_cast<Smp::Duration>(d); }
int64_t val(const DateTime &d) { return static_cast<Smp::DateTime>(d); }
constexpr int64_t EPOCH = 946728000LL * 1000000000LL; // 2000-01-01 12:00
// the count that fits when scaled by k
int64_t count(const char *n, int64_t k) {
  auto v = any(n);
  REQUIRES(v >= INT64_MIN / k && v <= INT64_MAX / k);
  return v;
}
template <class C> constexpr int64_t scale() {
  static_assert(std::ratio_less_equal_v<std::nano, typename C::period>);
  return ch::duration_cast<ch::nanoseconds>(C(1)).count();
}
} // namespace

CONTRACT(C14, duration_value) {
  auto v = any("v"), w = any("w");
  Duration d{v};
  ENSURES(val(d) == v);
  ENSURES(val(Duration{}) == 0);
  ENSURES(val(+d) == v);
  Duration c = d;
  ENSURES(val(c) == v);
  c = w;
  ENSURES(val(c) == w && val(d) == v);
  if (v > INT64_MIN)
    ENSURES(val(-d) == -v);
}
CONTRACT(C14, duration_arithmetic) {
  auto v = half("v"), w = half("w");
  Duration d{v}, e{w};
  const Smp::Duration &raw = w;
  Duration a = d;
  Duration &r1 = (a += e);
  ENSURES(&r1 == &a && val(a) == v + w);
  Duration &r2 = (a -= e);
  ENSURES(&r2 == &a && val(a) == v);
  a += raw;
  ENSURES(val(a) == v + w);
  a -= raw;
  ENSURES(val(a) == v);
  ENSURES(d + e == v + w);
  ENSURES(d - e == v - w);
  ENSURES(val(d) == v && val(e) == w);
}
CONTRACT(C14, duration_steps) {
  auto v = half("v");
  Duration a{v};
  ENSURES(val(a++) == v && val(a) == v + 1);
  ENSURES(val(++a) == v + 2 && val(a) == v + 2);
  ENSURES(val(a--) == v + 2 && val(a) == v + 1);
  ENSURES(val(--a) == v && val(a) == v);
  Duration &r = ++a;
  ENSURES(&r == &a);
  Duration &s = --a;
  ENSURES(&s == &a);
}
CONTRACT(C14, duration_scaling) {
  auto v = any("v");
  int32_t k = spec::nondet<int32_t>("k");
  REQUIRES(v >= -(1LL << 31) && v <= 1LL << 31);
  Duration a{v};
  a *= k;
  ENSURES(val(a) == v * k);
  if (k != 0) {
    a = Duration{v};
    a /= k;
    ENSURES(val(a) == v / k);
    a = Duration{v};
    a %= k;
    ENSURES(val(a) == v % k);
  }
}
CONTRACT(C14, duration_bits) {
  auto v = any("v"), w = any("w");
  Duration a{v};
  a &= w;
  ENSURES(val(a) == (v & w));
  a = Duration{v};
  a |= w;
  ENSURES(val(a) == (v | w));
  a = Duration{v};
  a ^= w;
  ENSURES(val(a) == (v ^ w));
  int k = spec::nondet<int>("shift");
  REQUIRES(k >= 0 && k < 63);
  a = Duration{v};
  a >>= k;
  ENSURES(val(a) == (v >> k));
  REQUIRES(v >= 0 && v <= (INT64_MAX >> k));
  a = Duration{v};
  a <<= k;
  ENSURES(val(a) == (v << k));
}
CONTRACT(C14, duration_order) {
  auto v = any("v"), w = any("w");
  const Duration d{v}, e{w};
  ENSURES((d == e) == (v == w) && (d != e) == (v != w));
  ENSURES((d < e) == (v < w) && (d > e) == (v > w));
  ENSURES((d <= e) == (v <= w) && (d >= e) == (v >= w));
  // against the plain value
  ENSURES((d == w) == (v == w) && (d != w) == (v != w));
  ENSURES((d < w) == (v < w) && (d > w) == (v > w));
  ENSURES((d <= w) == (v <= w) && (d >= w) == (v >= w));
}
// reading a constant Duration in a coarser unit
CONTRACT(C14, constant_in_seconds) {
  const Duration d{any("v")};
  ENSURES(static_cast<ch::seconds>(d).count() == val(d) / 1000000000);
}
namespace {
// a C++ duration of unit C (a whole number of nanoseconds)
template <class C> void chrono_duration() {
  constexpr int64_t k = scale<C>();
  auto n = count("n", k), v = any("v");
  const C c{static_cast<typename C::rep>(n)};
  REQUIRES(c.count() == n);
  Duration d{c};
  ENSURES(val(d) == n * k);
  // and back, truncated to the unit
  ENSURES(static_cast<C>(Duration{v}).count() == static_cast<typename C::rep>(v / k));
  ENSURES(static_cast<ch::nanoseconds>(Duration{v}).count() == v);
  Duration e{v};
  e = c;
  ENSURES(val(e) == n * k);
}
template <class C> void chrono_order() {
  constexpr int64_t k = scale<C>();
  auto n = count("n", k), v = any("v");
  const C c{static_cast<typename C::rep>(n)};
  REQUIRES(c.count() == n);
  const int64_t w = n * k;
  const Duration d{v};
  ENSURES((d == c) == (v == w) && (c == d) == (v == w));
  ENSURES((d != c) == (v != w) && (c != d) == (v != w));
  ENSURES((d < c) == (v < w) && (c < d) == (w < v));
  ENSURES((d > c) == (v > w) && (c > d) == (w > v));
  ENSURES((d <= c) == (v <= w) && (c <= d) == (w <= v));
  ENSURES((d >= c) == (v >= w) && (c >= d) == (w >= v));
}
template <class C> void chrono_arithmetic() {
  constexpr int64_t k = scale<C>();
  auto n = count("n", 2 * k), v = half("v");
  const C c{static_cast<typename C::rep>(n)};
  REQUIRES(c.count() == n);
  Duration d{v};
  d += c;
  ENSURES(val(d) == v + n * k);
  d -= c;
  ENSURES(val(d) == v);
  DateTime t{v};
  ENSURES(val(t + c) == v + n * k && val(c + t) == v + n * k);
  ENSURES(val(t - c) == v - n * k);
  DateTime &r1 = (t += c);
  ENSURES(&r1 == &t && val(t) == v + n * k);
  DateTime &r2 = (t -= c);
  ENSURES(&r2 == &t && val(t) == v);
}
} // namespace
CONTRACT_T(C14, chrono_nanoseconds, chrono_duration<ch::nanoseconds>)
CONTRACT_T(C14, chrono_microseconds, chrono_duration<ch::microseconds>)
CONTRACT_T(C14, chrono_milliseconds, chrono_duration<ch::milliseconds>)
CONTRACT_T(C14, chrono_seconds, chrono_duration<ch::seconds>)
CONTRACT_T(C14, chrono_minutes, chrono_duration<ch::minutes>)
CONTRACT_T(C14, chrono_hours, chrono_duration<ch::hours>)
CONTRACT_T(C14, order_nanoseconds, chrono_order<ch::nanoseconds>)
CONTRACT_T(C14, order_milliseconds, chrono_order<ch::milliseconds>)
CONTRACT_T(C14, order_hours, chrono_order<ch::hours>)
CONTRACT_T(C14, arithmetic_nanoseconds, chrono_arithmetic<ch::nanoseconds>)
CONTRACT_T(C14, arithmetic_milliseconds, chrono_arithmetic<ch::milliseconds>)
CONTRACT_T(C14, arithmetic_hours, chrono_arithmetic<ch::hours>)

namespace {
// the largest count of a unit whose nanoseconds are representable
template <int64_t unit, class Make, class Literal> void unit_of(Make make, Literal literal) {
  auto n = any("n");
  REQUIRES(n >= INT64_MIN / unit && n <= INT64_MAX / unit);
  ENSURES(val(make(n)) == n * unit);
  REQUIRES(n >= 0);
  ENSURES(val(literal(static_cast<unsigned long long>(n))) == n * unit);
}
} // namespace
CONTRACT(C14, unit_nanoseconds) { unit_of<1>([](int64_t n) { return Duration::nanoseconds(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_ns(n); }); }
CONTRACT(C14, unit_microseconds) { unit_of<1000>([](int64_t n) { return Duration::microseconds(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_us(n); }); }
CONTRACT(C14, unit_milliseconds) { unit_of<1000000>([](int64_t n) { return Duration::milliseconds(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_ms(n); }); }
CONTRACT(C14, unit_seconds) { unit_of<1000000000>([](int64_t n) { return Duration::seconds(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_s(n); }); }
CONTRACT(C14, unit_minutes) { unit_of<60000000000>([](int64_t n) { return Duration::minutes(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_mn(n); }); }
CONTRACT(C14, unit_hours) { unit_of<3600000000000>([](int64_t n) { return Duration::hours(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_h(n); }); }
CONTRACT(C14, unit_days) { unit_of<86400000000000>([](int64_t n) { return Duration::days(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_d(n); }); }
CONTRACT(C14, unit_weeks) { unit_of<604800000000000>([](int64_t n) { return Duration::weeks(n); }, [](unsigned long long n) { return Xsmp::literals::operator""_w(n); }); }
CONTRACT(C14, instant_value) {
  auto v = any("v"), w = any("w");
  DateTime t{v};
  ENSURES(val(t) == v && val(DateTime{}) == 0);
  DateTime u = t;
  ENSURES(val(u) == v);
  DateTime &r = (u = Smp::DateTime(w));
  ENSURES(&r == &u && val(u) == w && val(t) == v);
  ENSURES((t == u) == (v == w) && (t != u) == (v != w));
  ENSURES((t < u) == (v < w) && (t > u) == (v > w));
  ENSURES((t <= u) == (v <= w) && (t >= u) == (v >= w));
}
CONTRACT(C14, instant_arithmetic) {
  auto v = half("v"), w = half("w");
  const Smp::Duration d = w;
  DateTime t{v};
  ENSURES(val(t + d) == v + w && val(d + t) == v + w && val(t - d) == v - w);
  ENSURES(val(t) == v);
  DateTime &r1 = (t += d);
  ENSURES(&r1 == &t && val(t) == v + w);
  DateTime &r2 = (t -= d);
  ENSURES(&r2 == &t && val(t) == v);
  ENSURES(val(t++) == v && val(t) == v + 1);
  ENSURES(val(++t) == v + 2);
  ENSURES(val(t--) == v + 2 && val(t) == v + 1);
  ENSURES(val(--t) == v);
  DateTime &r3 = ++t;
  ENSURES(&r3 == &t);
  DateTime &r4 = --t;
  ENSURES(&r4 == &t);
}
namespace {
// an instant of a C++ clock: its epoch is 1970-01-01, that of SMP 2000-01-01 12:00
template <class C> void clock_instant() {
  using Point = ch::time_point<ch::system_clock, C>;
  constexpr int64_t k = scale<C>();
  auto n = count("n", 2 * k), v = half("v");
  const Point p{C{static_cast<typename C::rep>(n)}};
  REQUIRES(p.time_since_epoch().count() == n);
  DateTime t{p};
  ENSURES(val(t) == n * k - EPOCH);
  DateTime u{v};
  DateTime &r = (u = p);
  ENSURES(&r == &u && val(u) == n * k - EPOCH);
  ENSURES(static_cast<Point>(DateTime{v}).time_since_epoch().count() == static_cast<typename C::rep>((v + EPOCH) / k));
  // an amount of time is counted from the SMP epoch
  const C c{static_cast<typename C::rep>(n)};
  ENSURES(val(DateTime{c}) == n * k);
  DateTime &a = (u = c);
  ENSURES(&a == &u && val(u) == n * k);
}
} // namespace
CONTRACT_T(C14, clock_nanoseconds, clock_instant<ch::nanoseconds>)
CONTRACT_T(C14, clock_microseconds, clock_instant<ch::microseconds>)
CONTRACT_T(C14, clock_seconds, clock_instant<ch::seconds>)
CONTRACT_T(C14, clock_hours, clock_instant<ch::hours>)
