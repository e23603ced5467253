// A state vector in memory: reads return what was written, in order.
#ifndef VERIF_STORAGE_COMMON_H
#define VERIF_STORAGE_COMMON_H
#include "smp_common.h"
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
struct StateVector {
  static constexpr size_t MAX = 4096;
  char bytes[MAX];
  size_t size = 0, pos = 0;
};
struct Writer : Smp::MockIStorageWriter {
  StateVector &v;
  explicit Writer(StateVector &s) : v(s) {}
  void Store(void *address, Smp::UInt64 n) override {
    ENSURES(n == 0 || __spec_valid(address, n));
    REQUIRES(n <= StateVector::MAX - v.size);
    memcpy(v.bytes + v.size, address, n);
    v.size += n;
  }
};
struct Reader : Smp::MockIStorageReader {
  StateVector &v;
  explicit Reader(StateVector &s) : v(s) {}
  void Restore(void *address, Smp::UInt64 n) override {
    ENSURES(n == 0 || __spec_valid(address, n));
    ENSURES(n <= v.size - v.pos); // never reads more than was written
    memcpy(address, v.bytes + v.pos, n);
    v.pos += n;
  }
};
#endif
