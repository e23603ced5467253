// Smp::AnySimple: the variant every field, parameter and event argument
// travels in.
// @sources: src/Smp/AnySimple.cpp src/Xsmp/Exception.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/Helper.cpp src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp
#include "spec.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <cmath>
#include <limits>
using Smp::AnySimple;
using K = Smp::PrimitiveTypeKind;
namespace {
using Wide = __int128;
struct Range {
  bool integral;
  Wide lo, hi;
};
template <class T> constexpr Range range() {
  return {true, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
}
Range rangeOf(K k) {
  switch (k) {
  case K::PTK_UInt8:
    return range<uint8_t>();
  case K::PTK_UInt16:
    return range<uint16_t>();
  case K::PTK_UInt32:
    return range<uint32_t>();
  case K::PTK_UInt64:
    return range<uint64_t>();
  case K::PTK_Int8:
    return range<int8_t>();
  case K::PTK_Int16:
    return range<int16_t>();
  case K::PTK_Int32:
    return range<int32_t>();
  case K::PTK_Int64:
  case K::PTK_Duration:
  case K::PTK_DateTime:
    return range<int64_t>();
  default:
    return {false, 0, 0};
  }
}
// the integer an AnySimple of an integer kind stores
Wide stored(const AnySimple &a) {
  switch (a.type) {
  case K::PTK_UInt8:
    return a.value.uInt8Value;
  case K::PTK_UInt16:
    return a.value.uInt16Value;
  case K::PTK_UInt32:
    return a.value.uInt32Value;
  case K::PTK_UInt64:
    return a.value.uInt64Value;
  case K::PTK_Int8:
    return a.value.int8Value;
  case K::PTK_Int16:
    return a.value.int16Value;
  case K::PTK_Int32:
    return a.value.int32Value;
  case K::PTK_Int64:
    return a.value.int64Value;
  case K::PTK_Duration:
    return a.value.durationValue;
  default:
    return a.value.dateTimeValue;
  }
}
K anyKind(const char *n) {
  auto k = spec::nondet<int32_t>(n);
  REQUIRES(k >= int32_t(K::PTK_None) && k <= int32_t(K::PTK_String8));
  return static_cast<K>(k);
}
// does the floating type F hold exactly the integer v ?
template <class F, class I> bool holds(I v) {
  F f = static_cast<F>(v);
  if (f >= std::ldexp(F(1), std::numeric_limits<I>::digits))
    return false;
  return static_cast<I>(f) == v;
}
// a double survives the trip through a float (to double precision)
bool survives(double v) {
  double b = static_cast<float>(v);
  return std::isnan(v) || v == b || (!std::isinf(b) && std::fabs(v - b) <= std::numeric_limits<double>::epsilon());
}
template <class F> bool same(F a, F b) { return a == b || (a != a && b != b); }

// an arbitrary stored number, boolean or character
AnySimple anyScalar(const char *kn) {
  AnySimple a;
  auto k = anyKind(kn);
  REQUIRES(k != K::PTK_String8);
  a.type = k;
  a.value.uInt64Value = spec::nondet<uint64_t>("bits");
  if (k == K::PTK_Bool)
    a.value.boolValue = spec::nondet<bool>("b");
  return a;
}
// an arbitrary stored value
void anyValue(AnySimple &a) {
  if (__spec_choose("string")) {
    if (__spec_choose("null"))
      a.SetValue(K::PTK_String8, Smp::String8(nullptr));
    else
      a.SetValue(K::PTK_String8, spec::cstr("old").p);
  } else
    a = anyScalar("oldkind");
}
template <class T> constexpr K kindOf();
template <> constexpr K kindOf<bool>() { return K::PTK_Bool; }
template <> constexpr K kindOf<char>() { return K::PTK_Char8; }
template <> constexpr K kindOf<uint8_t>() { return K::PTK_UInt8; }
template <> constexpr K kindOf<uint16_t>() { return K::PTK_UInt16; }
template <> constexpr K kindOf<uint32_t>() { return K::PTK_UInt32; }
template <> constexpr K kindOf<uint64_t>() { return K::PTK_UInt64; }
template <> constexpr K kindOf<int8_t>() { return K::PTK_Int8; }
template <> constexpr K kindOf<int16_t>() { return K::PTK_Int16; }
template <> constexpr K kindOf<int32_t>() { return K::PTK_Int32; }
template <> constexpr K kindOf<int64_t>() { return K::PTK_Int64; }
template <> constexpr K kindOf<float>() { return K::PTK_Float32; }
template <> constexpr K kindOf<double>() { return K::PTK_Float64; }

// storing an integer
template <class T, int FLOAT> void set_int() {
  size_t live = __spec_live();
  {
    AnySimple a;
    // (the old value is irrelevant to the conversion)
    if (FLOAT == 0)
      anyValue(a);
    else
      a.SetValue(K::PTK_String8, "old");
    auto k = FLOAT == 32 ? K::PTK_Float32 : FLOAT == 64 ? K::PTK_Float64 : anyKind("kind");
    if (FLOAT == 0)
      REQUIRES(k != K::PTK_Float32 && k != K::PTK_Float64);
    auto v = spec::nondet<T>("v");
    bool fits = false;
    Range r = rangeOf(k);
    if (r.integral)
      fits = Wide(v) >= r.lo && Wide(v) <= r.hi;
    else if (k == K::PTK_Float32)
      fits = holds<float>(v);
    else if (k == K::PTK_Float64)
      fits = holds<double>(v);
    bool refused = false;
    try {
      a.SetValue(k, v);
    } catch (const Smp::InvalidAnyType &) {
      refused = true;
    }
    ENSURES(refused == !fits);
    if (fits) {
      ENSURES(a.GetType() == k);
      if (k == K::PTK_Float32)
        ENSURES(holds<float>(v) && a.value.float32Value == static_cast<float>(v));
      else if (k == K::PTK_Float64)
        ENSURES(holds<double>(v) && a.value.float64Value == static_cast<double>(v));
      else
        ENSURES(stored(a) == Wide(v));
    }
  }
  ENSURES(__spec_live() == live);
}
// storing a floating-point number
template <class T, bool NARROW> void set_float() {
  size_t live = __spec_live();
  {
    AnySimple a;
    if (!NARROW)
      anyValue(a);
    else
      a.SetValue(K::PTK_String8, "old");
    auto k = NARROW ? K::PTK_Float32 : anyKind("kind");
    if (!NARROW)
      REQUIRES(k != K::PTK_Float32);
    auto v = spec::nondet<T>("v");
    bool fits = k == K::PTK_Float64 ||
                (k == K::PTK_Float32 && (sizeof(T) == 4 || survives(v)));
    bool refused = false;
    try {
      a.SetValue(k, v);
    } catch (const Smp::InvalidAnyType &) {
      refused = true;
    }
    ENSURES(refused == !fits);
    if (fits) {
      ENSURES(a.GetType() == k);
      if (k == K::PTK_Float32)
        ENSURES(same(a.value.float32Value, static_cast<float>(v)));
      else
        ENSURES(same(a.value.float64Value, static_cast<double>(v)));
    }
  }
  ENSURES(__spec_live() == live);
}
// storing a boolean or a character: their own kind only
template <class T> void set_exact() {
  size_t live = __spec_live();
  {
    AnySimple a;
    anyValue(a);
    auto k = anyKind("kind");
    auto v = spec::nondet<T>("v");
    bool refused = false;
    try {
      a.SetValue(k, v);
    } catch (const Smp::InvalidAnyType &) {
      refused = true;
    }
    ENSURES(refused == (k != kindOf<T>()));
    if (!refused) {
      ENSURES(a.GetType() == k);
      ENSURES(static_cast<T>(a) == v);
    }
  }
  ENSURES(__spec_live() == live);
}
// reading as an integer
template <class T> void get_int() {
  AnySimple a = anyScalar("kind");
  Range r = rangeOf(a.type);
  bool fits = r.integral && stored(a) >= range<T>().lo && stored(a) <= range<T>().hi;
  auto before = a.value.uInt64Value;
  auto kind = a.type;
  bool refused = false;
  T v{};
  try {
    v = static_cast<T>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    refused = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == kindOf<T>());
  }
  ENSURES(refused == !fits);
  if (fits)
    ENSURES(Wide(v) == stored(a));
  ENSURES(a.type == kind && a.value.uInt64Value == before);
}
template <class F> bool holdsStored(const AnySimple &a) {
  switch (a.type) {
  case K::PTK_UInt8:
    return holds<F>(a.value.uInt8Value);
  case K::PTK_UInt16:
    return holds<F>(a.value.uInt16Value);
  case K::PTK_UInt32:
    return holds<F>(a.value.uInt32Value);
  case K::PTK_UInt64:
    return holds<F>(a.value.uInt64Value);
  case K::PTK_Int8:
    return holds<F>(a.value.int8Value);
  case K::PTK_Int16:
    return holds<F>(a.value.int16Value);
  case K::PTK_Int32:
    return holds<F>(a.value.int32Value);
  default:
    return holds<F>(a.value.int64Value);
  }
}
template <class F> F floatOf(const AnySimple &a) {
  switch (a.type) {
  case K::PTK_UInt8:
    return a.value.uInt8Value;
  case K::PTK_UInt16:
    return a.value.uInt16Value;
  case K::PTK_UInt32:
    return a.value.uInt32Value;
  case K::PTK_UInt64:
    return a.value.uInt64Value;
  case K::PTK_Int8:
    return a.value.int8Value;
  case K::PTK_Int16:
    return a.value.int16Value;
  case K::PTK_Int32:
    return a.value.int32Value;
  default:
    return a.value.int64Value;
  }
}
// reading as a floating-point number
template <class T> void get_float() {
  AnySimple a = anyScalar("kind");
  bool integer = rangeOf(a.type).integral && a.type != K::PTK_Duration && a.type != K::PTK_DateTime;
  bool fits = a.type == K::PTK_Float32 ||
              (a.type == K::PTK_Float64 && (sizeof(T) == 8 || survives(a.value.float64Value))) ||
              (integer && holdsStored<T>(a));
  bool refused = false;
  T v{};
  try {
    v = static_cast<T>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    refused = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == kindOf<T>());
  }
  ENSURES(refused == !fits);
  if (fits) {
    if (a.type == K::PTK_Float32)
      ENSURES(same(v, static_cast<T>(a.value.float32Value)));
    else if (a.type == K::PTK_Float64)
      ENSURES(same(v, static_cast<T>(a.value.float64Value)));
    else
      ENSURES(v == floatOf<T>(a));
  }
}
} // namespace
CONTRACT_T(C10, set_uint8, set_int<uint8_t, 0>)
CONTRACT_T(C10, set_uint8_as_float32, set_int<uint8_t, 32>)
CONTRACT_T(C10, set_uint8_as_float64, set_int<uint8_t, 64>)
CONTRACT_T(C10, set_uint16, set_int<uint16_t, 0>)
CONTRACT_T(C10, set_uint16_as_float32, set_int<uint16_t, 32>)
CONTRACT_T(C10, set_uint16_as_float64, set_int<uint16_t, 64>)
CONTRACT_T(C10, set_uint32, set_int<uint32_t, 0>)
CONTRACT_T(C10, set_uint32_as_float32, set_int<uint32_t, 32>)
CONTRACT_T(C10, set_uint32_as_float64, set_int<uint32_t, 64>)
CONTRACT_T(C10, set_uint64, set_int<uint64_t, 0>)
CONTRACT_T(C10, set_uint64_as_float32, set_int<uint64_t, 32>)
CONTRACT_T(C10, set_uint64_as_float64, set_int<uint64_t, 64>)
CONTRACT_T(C10, set_int8, set_int<int8_t, 0>)
CONTRACT_T(C10, set_int8_as_float32, set_int<int8_t, 32>)
CONTRACT_T(C10, set_int8_as_float64, set_int<int8_t, 64>)
CONTRACT_T(C10, set_int16, set_int<int16_t, 0>)
CONTRACT_T(C10, set_int16_as_float32, set_int<int16_t, 32>)
CONTRACT_T(C10, set_int16_as_float64, set_int<int16_t, 64>)
CONTRACT_T(C10, set_int32, set_int<int32_t, 0>)
CONTRACT_T(C10, set_int32_as_float32, set_int<int32_t, 32>)
CONTRACT_T(C10, set_int32_as_float64, set_int<int32_t, 64>)
CONTRACT_T(C10, set_int64, set_int<int64_t, 0>)
CONTRACT_T(C10, set_int64_as_float32, set_int<int64_t, 32>)
CONTRACT_T(C10, set_int64_as_float64, set_int<int64_t, 64>)
CONTRACT_T(C10, set_float32, set_float<float, false>)
CONTRACT_T(C10, set_float32_as_float32, set_float<float, true>)
CONTRACT_T(C10, set_float64, set_float<double, false>)
CONTRACT_T(C10, set_float64_as_float32, set_float<double, true>)
CONTRACT_T(C10, set_bool, set_exact<bool>)
CONTRACT_T(C10, set_char8, set_exact<char>)
CONTRACT_T(C10, get_uint8, get_int<uint8_t>)
CONTRACT_T(C10, get_uint16, get_int<uint16_t>)
CONTRACT_T(C10, get_uint32, get_int<uint32_t>)
CONTRACT_T(C10, get_uint64, get_int<uint64_t>)
CONTRACT_T(C10, get_int8, get_int<int8_t>)
CONTRACT_T(C10, get_int16, get_int<int16_t>)
CONTRACT_T(C10, get_int32, get_int<int32_t>)
CONTRACT_T(C10, get_int64, get_int<int64_t>)
CONTRACT_T(C10, get_float32, get_float<float>)
CONTRACT_T(C10, get_float64, get_float<double>)

// storing a string: a private copy (null stays null)
CONTRACT(C10, set_string) {
  size_t live = __spec_live();
  {
    AnySimple a;
    anyValue(a);
    auto k = anyKind("kind");
    auto s = spec::cstr("s");
    const char *p = __spec_choose("nullstr") ? nullptr : s.p;
    bool refused = false;
    try {
      a.SetValue(k, p);
    } catch (const Smp::InvalidAnyType &) {
      refused = true;
    }
    ENSURES(refused == (k != K::PTK_String8));
    if (!refused) {
      ENSURES(a.GetType() == K::PTK_String8);
      auto q = static_cast<Smp::String8>(a);
      if (p) {
        ENSURES(q != nullptr && q != p);
        ENSURES(strlen(q) == s.len);
        ENSURES(memcmp(q, p, s.len) == 0);
      } else
        ENSURES(q == nullptr);
    }
  }
  ENSURES(__spec_live() == live);
}
// storing the string the AnySimple already holds
CONTRACT(C10, set_string_own) {
  size_t live = __spec_live();
  {
    auto s = spec::cstr("s");
    AnySimple a{K::PTK_String8, s.p};
    auto off = spec::nondet<size_t>("off");
    REQUIRES(off <= s.len);
    a.SetValue(K::PTK_String8, static_cast<Smp::String8>(a) + off);
    auto q = static_cast<Smp::String8>(a);
    ENSURES(q != nullptr && strlen(q) == s.len - off);
    auto i = spec::nondet<size_t>("i");
    REQUIRES(i < s.len - off);
    ENSURES(q[i] == s.p[off + i]);
  }
  ENSURES(__spec_live() == live);
}
// booleans, characters and strings read back as such
CONTRACT(C10, get_bool) {
  AnySimple a = anyScalar("kind");
  bool refused = false, v = false;
  try {
    v = static_cast<bool>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    refused = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == K::PTK_Bool);
  }
  ENSURES(refused ==
          (a.type == K::PTK_None || a.type == K::PTK_Float32 || a.type == K::PTK_Float64));
  if (!refused) {
    if (a.type == K::PTK_Bool)
      ENSURES(v == a.value.boolValue);
    else if (a.type == K::PTK_Char8)
      ENSURES(v == (a.value.char8Value != 0));
    else
      ENSURES(v == (stored(a) != 0));
  }
}
CONTRACT(C10, get_char8) {
  AnySimple a = anyScalar("kind");
  bool refused = false;
  char v = 0;
  try {
    v = static_cast<char>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    refused = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == K::PTK_Char8);
  }
  ENSURES(refused == (a.type != K::PTK_Char8));
  if (!refused)
    ENSURES(v == a.value.char8Value);
}
CONTRACT(C10, get_string_wrong_kind) {
  AnySimple a = anyScalar("kind");
  bool refused = false, refused2 = false;
  try {
    (void)static_cast<Smp::String8>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    refused = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == K::PTK_String8);
  }
  try {
    (void)a.MoveString();
  } catch (const Smp::InvalidAnyType &e) {
    refused2 = true;
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == K::PTK_String8);
  }
  ENSURES(refused && refused2);
}
// a stored string reads as no number or character
template <class T> static bool reads(const AnySimple &a) {
  try {
    (void)static_cast<T>(a);
  } catch (const Smp::InvalidAnyType &e) {
    ENSURES(e.GetInvalidType() == a.type && e.GetExpectedType() == kindOf<T>());
    return false;
  }
  return true;
}
CONTRACT(C10, string_is_no_number) {
  auto s = spec::cstr("s");
  AnySimple a{K::PTK_String8, __spec_choose("null") ? Smp::String8(nullptr) : s.p};
  ENSURES(!reads<char>(a));
  ENSURES(!reads<uint8_t>(a) && !reads<uint16_t>(a) && !reads<uint32_t>(a) && !reads<uint64_t>(a));
  ENSURES(!reads<int8_t>(a) && !reads<int16_t>(a) && !reads<int32_t>(a) && !reads<int64_t>(a));
  ENSURES(!reads<float>(a) && !reads<double>(a));
  ENSURES(static_cast<bool>(a) == (static_cast<Smp::String8>(a) != nullptr));
}
// the string can be taken over by the caller
CONTRACT(C10, move_string) {
  size_t live = __spec_live();
  auto s = spec::cstr("s");
  size_t mine = __spec_live();
  const char *p;
  {
    AnySimple a{K::PTK_String8, s.p};
    auto q = static_cast<Smp::String8>(a);
    p = a.MoveString();
    ENSURES(p == q);
    ENSURES(a.GetType() == K::PTK_String8 && static_cast<Smp::String8>(a) == nullptr);
  }
  ENSURES(strlen(p) == s.len && memcmp(p, s.p, s.len) == 0);
  ENSURES(__spec_heap_array(p));
  delete[] p;
  ENSURES(__spec_live() == mine);
}
// copies are independent of their source
static void checkCopy(const AnySimple &src, const AnySimple &copy, uint64_t bits) {
  ENSURES(copy.type == src.type);
  if (src.type == K::PTK_String8) {
    auto p = static_cast<Smp::String8>(src), q = static_cast<Smp::String8>(copy);
    if (p) {
      ENSURES(q != nullptr && q != p && strlen(p) == strlen(q));
      ENSURES(memcmp(p, q, strlen(p)) == 0);
    } else
      ENSURES(q == nullptr);
  } else {
    ENSURES(src.value.uInt64Value == bits && copy.value.uInt64Value == bits);
  }
}
CONTRACT(C10, copy_construct) {
  size_t live = __spec_live();
  {
    AnySimple a;
    anyValue(a);
    auto bits = a.value.uInt64Value;
    auto k = a.type;
    AnySimple b{static_cast<const AnySimple &>(a)};
    ENSURES(a.type == k);
    checkCopy(a, b, bits);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C10, copy_assign) {
  size_t live = __spec_live();
  {
    AnySimple a, b;
    anyValue(a);
    anyValue(b);
    auto bits = a.value.uInt64Value;
    auto k = a.type;
    b = static_cast<const AnySimple &>(a);
    ENSURES(a.type == k);
    checkCopy(a, b, bits);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C10, copy_assign_self) {
  size_t live = __spec_live();
  {
    AnySimple a;
    anyValue(a);
    AnySimple was{static_cast<const AnySimple &>(a)};
    auto bits = a.value.uInt64Value;
    a = static_cast<const AnySimple &>(a);
    checkCopy(a, was, bits);
  }
  ENSURES(__spec_live() == live);
}
// allocation failures leave both operands usable and nothing leaks
CONTRACT(C10, copy_assign_out_of_memory) {
  size_t live = __spec_live();
  {
    auto s = spec::cstr("s");
    AnySimple a{K::PTK_String8, s.p}, b;
    anyValue(b);
    __spec_bad_alloc(1);
    try {
      b = static_cast<const AnySimple &>(a);
    } catch (const std::bad_alloc &) {
    }
    __spec_bad_alloc(0);
    if (b.type == K::PTK_String8 && b.value.string8Value)
      ENSURES(__spec_heap_array(b.value.string8Value));
    ENSURES(strlen(static_cast<Smp::String8>(a)) == s.len);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C10, set_string_out_of_memory) {
  size_t live = __spec_live();
  {
    auto s = spec::cstr("s");
    AnySimple b;
    anyValue(b);
    __spec_bad_alloc(1);
    try {
      b.SetValue(K::PTK_String8, s.p);
    } catch (const std::bad_alloc &) {
    }
    __spec_bad_alloc(0);
    if (b.type == K::PTK_String8 && b.value.string8Value)
      ENSURES(__spec_heap_array(b.value.string8Value));
  }
  ENSURES(__spec_live() == live);
}
// moving hands over the value and leaves the source without one
CONTRACT(C10, move_construct) {
  size_t live = __spec_live();
  {
    AnySimple a;
    anyValue(a);
    AnySimple was{static_cast<const AnySimple &>(a)};
    auto bits = a.value.uInt64Value;
    AnySimple b{static_cast<AnySimple &&>(a)};
    ENSURES(a.GetType() == K::PTK_None);
    ENSURES(b.type == was.type && b.value.uInt64Value == bits);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C10, move_assign) {
  size_t live = __spec_live();
  {
    AnySimple a, b;
    anyValue(a);
    anyValue(b);
    auto bits = a.value.uInt64Value;
    auto k = a.type;
    b = static_cast<AnySimple &&>(a);
    ENSURES(a.GetType() == K::PTK_None);
    ENSURES(b.type == k && b.value.uInt64Value == bits);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C10, construct) {
  AnySimple a;
  ENSURES(a.GetType() == K::PTK_None);
  auto k = anyKind("kind");
  AnySimple b{k};
  ENSURES(b.GetType() == k);
  if (rangeOf(k).integral)
    ENSURES(stored(b) == 0);
  if (k == K::PTK_String8)
    ENSURES(static_cast<Smp::String8>(b) == nullptr);
  if (k == K::PTK_Bool)
    ENSURES(!static_cast<bool>(b));
}
// the refusal names both kinds
CONTRACT(C10, refusal_kinds) {
  AnySimple a = anyScalar("kind");
  try {
    (void)static_cast<char>(static_cast<const AnySimple &>(a));
  } catch (const Smp::InvalidAnyType &e) {
    bool either = (e.GetExpectedType() == K::PTK_Char8 && e.GetInvalidType() == a.type) ||
                  (e.GetInvalidType() == K::PTK_Char8 && e.GetExpectedType() == a.type);
    ENSURES(either);
  }
}
// equality
CONTRACT(C10, equal_integers) {
  AnySimple a = anyScalar("kind"), b = anyScalar("kind2");
  Range ra = rangeOf(a.type), rb = rangeOf(b.type);
  REQUIRES(ra.integral && rb.integral);
  const AnySimple &x = a, &y = b;
  bool eq = stored(a) == stored(b);
  ENSURES((x == y) == eq);
  ENSURES((y == x) == eq);
  ENSURES((x != y) == !eq);
}
CONTRACT(C10, equal_same_kind) {
  AnySimple a = anyScalar("kind"), b = anyScalar("kind2");
  REQUIRES(a.type == b.type);
  REQUIRES(a.type == K::PTK_None || a.type == K::PTK_Bool || a.type == K::PTK_Char8);
  const AnySimple &x = a, &y = b;
  bool eq = a.type == K::PTK_None || (a.type == K::PTK_Bool && a.value.boolValue == b.value.boolValue) ||
            (a.type == K::PTK_Char8 && a.value.char8Value == b.value.char8Value);
  ENSURES((x == y) == eq);
  ENSURES((x != y) == !eq);
}
CONTRACT(C10, equal_none) {
  AnySimple a, b;
  anyValue(b);
  const AnySimple &x = a, &y = b;
  ENSURES((x == y) == (b.type == K::PTK_None));
  ENSURES((y == x) == (b.type == K::PTK_None));
}
template <class F> static void equal_float(K k) {
  auto p = spec::nondet<F>("p"), q = spec::nondet<F>("q");
  AnySimple a{k, p}, b{k, q};
  const AnySimple &x = a, &y = b;
  bool eq = p == q || std::fabs(p - q) <= std::numeric_limits<F>::epsilon();
  ENSURES((x == y) == eq);
  ENSURES((x != y) == !eq);
}
CONTRACT(C10, equal_float32) { equal_float<float>(K::PTK_Float32); }
CONTRACT(C10, equal_float64) { equal_float<double>(K::PTK_Float64); }
CONTRACT(C10, equal_strings) {
  auto s = spec::cstr("s"), t = spec::cstr("t");
  AnySimple a{K::PTK_String8, s.p}, b{K::PTK_String8, t.p};
  const AnySimple &x = a, &y = b;
  bool eq = s.len == t.len && memcmp(s.p, t.p, s.len) == 0;
  ENSURES((x == y) == eq);
  ENSURES((x != y) == !eq);
  ENSURES(x == x);
}
CONTRACT(C10, equal_null_strings) {
  auto s = spec::cstr("s");
  AnySimple a{K::PTK_String8, Smp::String8(nullptr)}, b{K::PTK_String8, s.p};
  AnySimple c{K::PTK_String8, Smp::String8(nullptr)};
  const AnySimple &x = a, &y = b, &z = c;
  ENSURES(!(x == y) && !(y == x) && x == z);
}
CONTRACT(C10, string_never_equals_scalar) {
  auto s = spec::cstr("s");
  AnySimple a{K::PTK_String8, s.p}, b = anyScalar("kind");
  REQUIRES(b.type != K::PTK_Bool);
  const AnySimple &x = a, &y = b;
  ENSURES(!(x == y) && !(y == x));
}
