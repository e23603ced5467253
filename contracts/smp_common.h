#ifndef VERIF_SMP_COMMON_H
#define VERIF_SMP_COMMON_H
#include "mocks.h"
#include "spec.h"
// an interface implementation with a name, a description and a parent
template <class M> struct Named : public M {
  const char *name_ = "obj";
  const char *desc_ = "";
  Smp::IObject *parent_ = nullptr;
  Named() = default;
  explicit Named(const char *n, Smp::IObject *p = nullptr) : name_(n), parent_(p) {}
  Smp::String8 GetName() const override { return name_; }
  Smp::String8 GetDescription() const override { return desc_; }
  Smp::IObject *GetParent() const override { return parent_; }
};
inline bool text_is(const char *got, const char *want) {
  size_t n = strlen(want);
  return got && strlen(got) == n && memcmp(got, want, n) == 0;
}
using K = Smp::PrimitiveTypeKind;
inline K anyKind(const char *n) {
  auto k = spec::nondet<int32_t>(n);
  REQUIRES(k >= int32_t(K::PTK_None) && k <= int32_t(K::PTK_String8));
  return static_cast<K>(k);
}
#endif
