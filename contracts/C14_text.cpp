// Time values are printed and parsed by the date library: the right instant,
// the requested format, and a determined value when the text is unreadable.
// @sources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp
// @flags: -I$V/smp
// @models: models_stream.cpp models_date.cpp
#include "date_ghost.h"
#include "stream_ghost.h"
#include <Smp/PrimitiveTypes.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <cstdio>
#include <sstream>
using Xsmp::DateTime;
using Xsmp::Duration;
namespace {
constexpr int64_t EPOCH = 946728000LL * 1000000000LL; // 2000-01-01 12:00
int64_t any(const char *n) { return spec::nondet<int64_t>(n); }
struct Fmt {
  const char *p;
};
#ifdef SPEC_NATIVE
// hours, minutes, seconds and nanoseconds; days are those of the civil calendar
std::string clock(int64_t v) {
  char b[64];
  const char *sign = v < 0 ? "-" : "";
  unsigned long u = v < 0 ? -static_cast<unsigned long>(v) : static_cast<unsigned long>(v);
  unsigned long s = u / 1000000000;
  snprintf(b, sizeof b, "%s%02lu:%02lu:%02lu.%09lu", sign, s / 3600, s / 60 % 60, s % 60, u % 1000000000);
  return b;
}
std::string calendar(int64_t v) { // v since 1970
  int64_t day = v / 86400000000000, t = v % 86400000000000;
  if (t < 0) {
    t += 86400000000000;
    --day;
  }
  int64_t z = day + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
  int64_t doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
  char b[64];
  snprintf(b, sizeof b, "%04ld-%02ld-%02ld ", long(y), long(m), long(d));
  return b + clock(t);
}
int64_t any_duration(const char *n) {
  auto v = any(n);
  v %= 360000000000000;
  return v;
}
int64_t any_instant(const char *n) {
  auto v = any(n);
  v %= 3000000000000000000;
  return v;
}
const char *any_fmt(bool d) { return d || spec::nondet<bool>("fmt") ? "%T" : "%F %T"; }
void want(const char *) {}
std::string expect_d(const char *, int64_t v) { return clock(v); }
std::string expect_t(const char *f, int64_t v) {
  auto s = calendar(v);
  return f[1] == 'T' ? s.substr(s.find(' ') + 1) : s;
}
#else
int64_t any_duration(const char *n) { return any(n); }
int64_t any_instant(const char *n) {
  auto v = any(n);
  REQUIRES(v <= INT64_MAX - EPOCH);
  return v;
}
const char *any_fmt(bool) { return spec::cstr("fmt").p; }
void want(const char *f) { ghost::g_date.want_fmt = f; }
std::string expect(char kind, int64_t v) {
  ENSURES(ghost::g_date.fmt_ok);
  char b[10];
  b[0] = kind;
  memcpy(b + 1, &v, sizeof v);
  return std::string(b, 9);
}
std::string expect_d(const char *, int64_t v) { return expect('d', v); }
std::string expect_t(const char *, int64_t v) { return expect('t', v); }
#endif
bool same(const std::string &a, const std::string &b) {
  return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0;
}
bool written(ghost::OStream &o, const std::string &b) {
  auto w = o.written();
  return w.size() == b.size() && memcmp(w.data(), b.data(), b.size()) == 0;
}
} // namespace

CONTRACT(C14, duration_printed) {
  auto v = any_duration("v");
  const Duration d{v};
  auto f = any_fmt(true);
  want(f);
  ENSURES(same(d.format(f), expect_d(f, v)));
  ENSURES(same(d.format(std::string(f)), expect_d(f, v)));
  want("%T");
  ENSURES(same(d.format(), expect_d("%T", v)));
}
CONTRACT(C14, duration_streamed) {
  auto v = any_duration("v");
  const Duration d{v};
  auto f = any_fmt(true);
  want(f);
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os(), f) == &o.os());
    ENSURES(written(o, expect_d(f, v)));
  }
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os(), std::string(f)) == &o.os());
    ENSURES(written(o, expect_d(f, v)));
  }
  want("%T");
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os()) == &o.os());
    ENSURES(written(o, expect_d("%T", v)));
  }
  ghost::OStream o;
  ENSURES(&(o.os() << d) == &o.os());
  ENSURES(written(o, expect_d("%T", v)));
}
CONTRACT(C14, instant_printed) {
  auto v = any_instant("v");
  const DateTime d{v};
  auto f = any_fmt(false);
  want(f);
  ENSURES(same(d.format(f), expect_t(f, v + EPOCH)));
  ENSURES(same(d.format(std::string(f)), expect_t(f, v + EPOCH)));
  want("%F %T");
  ENSURES(same(d.format(), expect_t("%F %T", v + EPOCH)));
}
CONTRACT(C14, instant_streamed) {
  auto v = any_instant("v");
  const DateTime d{v};
  auto f = any_fmt(false);
  want(f);
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os(), f) == &o.os());
    ENSURES(written(o, expect_t(f, v + EPOCH)));
  }
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os(), std::string(f)) == &o.os());
    ENSURES(written(o, expect_t(f, v + EPOCH)));
  }
  want("%F %T");
  {
    ghost::OStream o;
    ENSURES(&d.to_stream(o.os()) == &o.os());
    ENSURES(written(o, expect_t("%F %T", v + EPOCH)));
  }
  ghost::OStream o;
  ENSURES(&(o.os() << d) == &o.os());
  ENSURES(written(o, expect_t("%F %T", v + EPOCH)));
}
#ifdef SPEC_NATIVE
CONTRACT(C14, duration_parsed) {
  auto v = any_duration("v");
  if (v < 0)
    v = -v;
  v %= 86400000000000;
  auto text = clock(v);
  ENSURES(static_cast<Smp::Duration>(Duration{text}) == v);
  ENSURES(static_cast<Smp::Duration>(Duration{std::string_view(text), "%T"}) == v);
  std::istringstream is(text);
  ENSURES(static_cast<Smp::Duration>(Duration{is}) == v);
  text.insert(0, "x");
  ENSURES(static_cast<Smp::Duration>(Duration{text}) == 0);
  std::istringstream bad(text);
  ENSURES(static_cast<Smp::Duration>(Duration{bad}) == 0);
}
CONTRACT(C14, instant_parsed) {
  auto v = any_instant("v");
  auto text = calendar(v + EPOCH);
  ENSURES(static_cast<Smp::DateTime>(DateTime{text}) == v);
  ENSURES(static_cast<Smp::DateTime>(DateTime{std::string_view(text), "%F %T"}) == v);
  std::istringstream is(text);
  ENSURES(static_cast<Smp::DateTime>(DateTime{is}) == v);
}
#else
namespace {
// a text of any content, read by the format f
template <class T, bool text> void parsed(const char *standard, char kind, int64_t offset, bool zero) {
  using ghost::g_date;
  auto s = spec::cstr("text");
  auto f = spec::cstr("fmt");
  g_date.ok = spec::nondet<bool>("ok");
  g_date.value = any("value");
  REQUIRES(g_date.value >= INT64_MIN + offset);
  const int64_t said = g_date.value - offset;
  alignas(16) char opaque[512];
  auto &is = *reinterpret_cast<std::istream *>(opaque);
  auto check = [&](int64_t got) {
    ENSURES(g_date.parses == 1 && g_date.kind == kind);
    ENSURES(g_date.fmt_ok);
    if (g_date.ok)
      ENSURES(got == said);
    else if (zero)
      ENSURES(got == 0);
    if (text)
      ENSURES(g_date.source_ok && g_date.stream == g_date.source_of);
    else
      ENSURES(g_date.stream == &is);
    g_date.parses = 0;
  };
  g_date.want_source = s.p;
  want(standard);
  if (text)
    check(static_cast<int64_t>(T{std::string_view(s.p, s.len)}));
  else
    check(static_cast<int64_t>(T{is}));
  want(f.p);
  if (text)
    check(static_cast<int64_t>(T{std::string_view(s.p, s.len), f.p}));
  else
    check(static_cast<int64_t>(T{is, f.p}));
}
} // namespace
CONTRACT(C14, duration_parsed) { parsed<Duration, true>("%T", 'd', 0, true); }
CONTRACT(C14, instant_parsed) { parsed<DateTime, true>("%F %T", 't', EPOCH, false); }
CONTRACT(C14, duration_read) { parsed<Duration, false>("%T", 'd', 0, true); }
CONTRACT(C14, instant_read) { parsed<DateTime, false>("%F %T", 't', EPOCH, false); }
#endif
