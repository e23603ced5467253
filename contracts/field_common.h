// Types of fields, and fields of every shape.
#ifndef VERIF_FIELD_COMMON_H
#define VERIF_FIELD_COMMON_H
#include "smp_common.h"
#include <Xsmp/Field.h>
// a registry of a few types, identified by the first four bytes of their identifier
struct Types : Smp::Publication::MockITypeRegistry {
  struct Simple : Named<Smp::Publication::MockIType> {
    K kind = K::PTK_None;
    Smp::Uuid id{};
    K GetPrimitiveTypeKind() const override { return kind; }
    Smp::Uuid GetUuid() const override { return id; }
  };
  struct Array : Named<Smp::Publication::MockIArrayType> {
    const Smp::Publication::IType *item = nullptr;
    uint64_t count = 0;
    K GetPrimitiveTypeKind() const override { return K::PTK_None; }
    const Smp::Publication::IType *GetItemType() const override { return item; }
    Smp::UInt64 GetSize() const override { return count; }
  };
  struct Structure : Named<Smp::Publication::MockIStructureType> {
    K GetPrimitiveTypeKind() const override { return K::PTK_None; }
  };
  Simple i32, f64, u8, str;
  Array ai32, af64;
  Structure st;
  static Smp::Uuid uuid(int n) {
    Smp::Uuid u{};
    u.Data1 = n;
    return u;
  }
  Types() {
    i32.kind = K::PTK_Int32;
    i32.id = uuid(1);
    f64.kind = K::PTK_Float64;
    f64.id = uuid(2);
    u8.kind = K::PTK_UInt8;
    u8.id = uuid(6);
    str.kind = K::PTK_String8;
    str.id = uuid(7);
    ai32.item = &i32;
    ai32.count = 2;
    af64.item = &f64;
    af64.count = 2;
  }
  Smp::Publication::IType *GetType(Smp::Uuid u) const override {
    auto *t = const_cast<Types *>(this);
    switch (u.Data1) {
    case 1: return &t->i32;
    case 2: return &t->f64;
    case 3: return &t->ai32;
    case 4: return &t->af64;
    case 5: return &t->st;
    case 6: return &t->u8;
    case 7: return &t->str;
    }
    return nullptr;
  }
};
#endif
