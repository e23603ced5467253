// Unique identifiers: parsing, ordering, hashing.
// @sources: src/Smp/Uuid.cpp src/Smp/StreamOperators.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp src/Smp/AnySimple.cpp
// @nativesources: src/Xsmp/Helper.cpp src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp
#include "spec.h"
#include "stream_ghost.h"
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
#include <functional>
#include <unordered_map>
using Smp::Uuid;
namespace {
bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool dash(size_t i) { return i == 8 || i == 13 || i == 18 || i == 23; }
// the value of the hexadecimal digit c
unsigned nibble(char c) { return (unsigned(c) & 15u) + 9u * ((unsigned(c) >> 6) & 1u); }
unsigned long number(const char *s, int n) {
  unsigned long v = 0;
  for (int i = 0; i < n; ++i)
    v = v * 16 + nibble(s[i]);
  return v;
}
Uuid anyUuid() {
  Uuid u;
  u.Data1 = spec::nondet<uint32_t>("data1");
  for (auto &d : u.Data2)
    d = spec::nondet<uint16_t>("data2");
  for (auto &d : u.Data3)
    d = spec::nondet<uint8_t>("data3");
  return u;
}
bool same(const Uuid &a, const Uuid &b) {
  bool r = a.Data1 == b.Data1;
  for (int i = 0; i < 3; ++i)
    r = r & (a.Data2[i] == b.Data2[i]);
  for (int i = 0; i < 6; ++i)
    r = r & (a.Data3[i] == b.Data3[i]);
  return r;
}
bool refused(const char *s) {
  try {
    Uuid u(s);
    return false;
  } catch (const Smp::Exception &e) {
    ENSURES(strcmp(e.GetName(), "InvalidUUID") == 0);
    return true;
  }
}
} // namespace
// a text of the right form gives the number it spells
CONTRACT(C12, parse_valid) {
  auto s = spec::cstr("s");
  REQUIRES(s.len == 36);
  REQUIRES(spec::all(0, 36, [&](size_t i) { return dash(i) ? s.p[i] == '-' : hex(s.p[i]); }));
  Uuid u(s.p);
  ENSURES(u.Data1 == number(s.p, 8));
  ENSURES(u.Data2[0] == number(s.p + 9, 4));
  ENSURES(u.Data2[1] == number(s.p + 14, 4));
  ENSURES(u.Data2[2] == number(s.p + 19, 4));
  for (int i = 0; i < 6; ++i)
    ENSURES(u.Data3[i] == number(s.p + 24 + 2 * i, 2));
}
// any other text is refused
CONTRACT(C12, parse_wrong_length) {
  auto s = spec::cstr("s");
  REQUIRES(s.len != 36);
  ENSURES(refused(s.p));
}
CONTRACT(C12, parse_wrong_character) {
  auto s = spec::cstr("s");
  REQUIRES(s.len == 36);
  auto i = spec::nondet<size_t>("i");
  REQUIRES(i < 36);
  REQUIRES(!(dash(i) ? s.p[i] == '-' : hex(s.p[i])));
  ENSURES(refused(s.p));
}
CONTRACT(C12, parse_null) { ENSURES(refused(nullptr)); }
CONTRACT(C12, equality) {
  Uuid a = anyUuid(), b = anyUuid();
  bool eq = same(a, b);
  ENSURES((a == b) == eq);
  ENSURES((a != b) == !eq);
}
// a strict total order consistent with equality
CONTRACT(C12, order_total) {
  Uuid a = anyUuid(), b = anyUuid();
  ENSURES(int(a < b) + int(b < a) + int(same(a, b)) == 1);
}
CONTRACT(C12, order_irreflexive) {
  Uuid a = anyUuid();
  ENSURES(!(a < a));
  ENSURES(a == a);
}
CONTRACT(C12, order_transitive) {
  Uuid a = anyUuid(), b = anyUuid(), c = anyUuid();
  REQUIRES(a < b);
  REQUIRES(b < c);
  ENSURES(a < c);
}
// equal identifiers have equal hashes
CONTRACT(C12, hash) {
  Uuid a = anyUuid(), b = anyUuid();
  auto h = std::hash<Uuid>()(a);
  ENSURES(std::hash<Uuid>()(a) == h);
  if (same(a, b))
    ENSURES(std::hash<Uuid>()(b) == h);
}
CONTRACT(C12, copy) {
  Uuid a = anyUuid(), b(a), c;
  c = a;
  ENSURES(same(a, b) && same(a, c));
}
// printing and parsing again gives the same identifier
CONTRACT(C12, print_parse) {
  Uuid a = anyUuid();
  ghost::OStream o;
  o.os() << a;
  auto w = o.written();
  ENSURES(w.size() == 36);
  char text[37];
  memcpy(text, w.data(), 36);
  text[36] = 0;
  Uuid b(text);
  ENSURES(same(a, b));
}
