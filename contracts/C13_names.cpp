// Names of objects, texts stored in fixed character fields, and conversions
// between C++ values and simple values.
// @sources: src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp src/Smp/AnySimple.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp
#include "smp_common.h"
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidObjectName.h>
#include <Xsmp/AnySimpleConverter.h>
#include <Xsmp/Helper.h>
#include <Xsmp/String.h>
#include <array>
using Smp::AnySimple;
namespace {
bool letter(char c) { return unsigned((c | 32) - 'a') < 26u; }
bool digit(char c) { return unsigned(c - '0') < 10u; }
bool word(char c) { return letter(c) | digit(c) | (c == '_'); }
struct Obj : Named<Smp::MockIObject> {};
// the name is accepted and copied, or refused with an exception that carries it
bool accepted(const char *name) {
  Obj parent;
  const Smp::IObject *p = __spec_choose("parent") ? &parent : nullptr;
  size_t live = __spec_live();
  bool r = false;
  try {
    auto s = Xsmp::Helper::checkName(name, p);
    ENSURES(s.c_str() != name);
    ENSURES(text_is(s.c_str(), name));
    r = true;
  } catch (const Smp::InvalidObjectName &e) {
    ENSURES(text_is(e.GetInvalidName(), name ? name : "<null>"));
    ENSURES(e.GetSender() == p);
  }
  ENSURES(__spec_live() == live);
  return r;
}
} // namespace
// a letter followed by letters, digits and underscores
CONTRACT(C13, name_identifier) {
  auto s = spec::cstr("name");
  REQUIRES(letter(s.p[0]));
  ENSURES(accepted(s.p) == spec::all(1, s.len, [&](size_t i) { return word(s.p[i]); }));
}
// or an index in square brackets
CONTRACT(C13, name_index) {
  auto s = spec::cstr("name");
  REQUIRES(s.p[0] == '[');
  bool ok = s.len >= 3 && s.p[s.len - 1] == ']' && spec::all(1, s.len - 1, [&](size_t i) { return digit(s.p[i]); });
  ENSURES(accepted(s.p) == ok);
}
CONTRACT(C13, name_other) {
  auto s = spec::cstr("name");
  REQUIRES(!letter(s.p[0]) && s.p[0] != '[');
  ENSURES(!accepted(s.p));
}
CONTRACT(C13, name_null) { ENSURES(!accepted(nullptr)); }

// a text stored in a character field: cut to the field, terminated, nothing
// behind it touched
CONTRACT(C13, copy_text) {
  auto s = spec::cstr("s");
  auto size = spec::nondet<size_t>("size");
  REQUIRES(size < (size_t(1) << 40));
  char *d = spec::rwbytes(size + 1, "field");
  size_t n = s.len < size ? s.len : size;
  size_t at = spec::nondet<size_t>("at");
  REQUIRES(at > n && at <= size || n == size);
  char old = n == size ? 0 : d[at];
  AnySimple v{K::PTK_String8, s.p};
  Xsmp::Helper::CopyString(d, size, v);
  ENSURES(memcmp(d, s.p, n) == 0);
  ENSURES(d[n] == 0);
  if (n < size)
    ENSURES(d[at] == old);
}
CONTRACT(C13, copy_null_text) {
  char d[8];
  __spec_fillbuf(d, 8, "field");
  char c = d[1];
  AnySimple v{K::PTK_String8, Smp::String8(nullptr)};
  Xsmp::Helper::CopyString(d, 7, v);
  ENSURES(d[0] == 0 && d[1] == c);
}
CONTRACT(C13, copy_no_text) {
  char d[8];
  __spec_fillbuf(d, 8, "field");
  char c = d[0];
  AnySimple v;
  v.type = anyKind("kind");
  v.value.uInt64Value = 0;
  REQUIRES(v.type != K::PTK_String8);
  bool refused = false;
  try {
    Xsmp::Helper::CopyString(d, 7, v);
  } catch (const Smp::InvalidAnyType &) {
    refused = true;
  }
  ENSURES(refused && d[0] == c);
}
namespace {
enum class Small : int8_t { A = -1, B = 5 };
enum class Large : uint64_t { Z = ~0ull };
// a value converted to its kind and back is the same
template <class T, K kind> void round_trip() {
  T v;
  __spec_nondet(&v, sizeof v, "v");
  size_t live = __spec_live();
  {
    AnySimple a = Xsmp::AnySimpleConverter<T>::convert(kind, v);
    ENSURES(a.GetType() == kind);
    const AnySimple &c = a;
    T b = Xsmp::AnySimpleConverter<T>::convert(c);
    ENSURES(memcmp(&b, &v, sizeof v) == 0);
  }
  ENSURES(__spec_live() == live);
}
// an enumeration refuses numbers outside its underlying type
template <class T> void enum_range() {
  using U = std::underlying_type_t<T>;
  auto v = spec::nondet<int64_t>("v");
  const AnySimple a{K::PTK_Int64, v};
  bool fits = std::is_signed_v<U> ? v >= int64_t(std::numeric_limits<U>::min()) && v <= int64_t(std::numeric_limits<U>::max())
                                  : v >= 0;
  bool refused = false;
  try {
    T b = Xsmp::AnySimpleConverter<T>::convert(a);
    ENSURES(int64_t(b) == v);
  } catch (const Smp::InvalidAnyType &) {
    refused = true;
  }
  ENSURES(refused == !fits);
}
template <class T> const char *text(const T &t) { return reinterpret_cast<const char *>(&t); }
// text types: cut to the capacity, terminated; and back
template <class T> void text_type() {
  size_t live = __spec_live();
  {
    auto s = spec::cstr("s");
    const AnySimple a{K::PTK_String8, s.p};
    T t = Xsmp::AnySimpleConverter<T>::convert(a);
    size_t n = s.len < sizeof(T) - 1 ? s.len : sizeof(T) - 1;
    ENSURES(memcmp(text(t), s.p, n) == 0 && text(t)[n] == 0);
    AnySimple b = Xsmp::AnySimpleConverter<T>::convert(K::PTK_String8, t);
    ENSURES(b.GetType() == K::PTK_String8);
    const char *back = static_cast<Smp::String8>(static_cast<const AnySimple &>(b));
    ENSURES(back != text(t) && strlen(back) == n && memcmp(back, s.p, n) == 0);
  }
  ENSURES(__spec_live() == live);
}
struct Raw {
  char internalString[12];
};
} // namespace
CONTRACT_T(C13, convert_int8, round_trip<int8_t, K::PTK_Int8>)
CONTRACT_T(C13, convert_int16, round_trip<int16_t, K::PTK_Int16>)
CONTRACT_T(C13, convert_int32, round_trip<int32_t, K::PTK_Int32>)
CONTRACT_T(C13, convert_int64, round_trip<int64_t, K::PTK_Int64>)
CONTRACT_T(C13, convert_duration, round_trip<int64_t, K::PTK_Duration>)
CONTRACT_T(C13, convert_datetime, round_trip<int64_t, K::PTK_DateTime>)
CONTRACT_T(C13, convert_uint8, round_trip<uint8_t, K::PTK_UInt8>)
CONTRACT_T(C13, convert_uint16, round_trip<uint16_t, K::PTK_UInt16>)
CONTRACT_T(C13, convert_uint32, round_trip<uint32_t, K::PTK_UInt32>)
CONTRACT_T(C13, convert_uint64, round_trip<uint64_t, K::PTK_UInt64>)
CONTRACT_T(C13, convert_char8, round_trip<char, K::PTK_Char8>)
CONTRACT_T(C13, convert_small_enum, round_trip<Small, K::PTK_Int8>)
CONTRACT_T(C13, convert_large_enum, round_trip<Large, K::PTK_UInt64>)
CONTRACT_T(C13, convert_enum_int32, round_trip<Small, K::PTK_Int32>)
CONTRACT_T(C13, enum_range_small, enum_range<Small>)
CONTRACT_T(C13, enum_range_large, enum_range<Large>)
CONTRACT_T(C13, text_string, text_type<Xsmp::String<15>>)
CONTRACT_T(C13, text_raw, text_type<Raw>)
CONTRACT_T(C13, text_array, text_type<std::array<char, 8>>)
