// std::_Hash_bytes as the coarsest of hashes: texts of one length collide, so
// that nothing can rely on a hash telling texts apart.
#include "spec.h"
#define MODEL(sym) __asm__("__model_" sym)
size_t m_hash(const void *, size_t, size_t) MODEL("_ZSt11_Hash_bytesPKvmm");
__attribute__((used)) size_t m_hash(const void *p, size_t n, size_t) {
  __spec_assert(__spec_valid(p, n), "hashed bytes are readable");
  return n;
}
