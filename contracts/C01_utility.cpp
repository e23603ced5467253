// Integer comparison helpers compare mathematical values.
#include "spec.h"
#include <Smp/utility.h>
using W = __int128;
template <class A, class B> void cmp() {
  A a = spec::nondet<A>("a");
  B b = spec::nondet<B>("b");
  const W x = a, y = b;
  ENSURES(Smp::utility::cmp_equal(a, b) == (x == y));
  ENSURES(Smp::utility::cmp_not_equal(a, b) == (x != y));
  ENSURES(Smp::utility::cmp_less(a, b) == (x < y));
  ENSURES(Smp::utility::cmp_less_equal(a, b) == (x <= y));
  ENSURES(Smp::utility::cmp_greater(a, b) == (x > y));
  ENSURES(Smp::utility::cmp_greater_equal(a, b) == (x >= y));
  ENSURES(Smp::utility::in_range<A>(b) ==
          (y >= W(std::numeric_limits<A>::min()) &&
           y <= W(std::numeric_limits<A>::max())));
}
#define ROW(n, T)                                                              \
  CONTRACT_T(C01, cmp_##n##_i8, cmp<T, int8_t>)                                \
  CONTRACT_T(C01, cmp_##n##_u8, cmp<T, uint8_t>)                               \
  CONTRACT_T(C01, cmp_##n##_i16, cmp<T, int16_t>)                              \
  CONTRACT_T(C01, cmp_##n##_u16, cmp<T, uint16_t>)                             \
  CONTRACT_T(C01, cmp_##n##_i32, cmp<T, int32_t>)                              \
  CONTRACT_T(C01, cmp_##n##_u32, cmp<T, uint32_t>)                             \
  CONTRACT_T(C01, cmp_##n##_i64, cmp<T, int64_t>)                              \
  CONTRACT_T(C01, cmp_##n##_u64, cmp<T, uint64_t>)
ROW(i8, int8_t)
ROW(u8, uint8_t)
ROW(i16, int16_t)
ROW(u16, uint16_t)
ROW(i32, int32_t)
ROW(u32, uint32_t)
ROW(i64, int64_t)
ROW(u64, uint64_t)
