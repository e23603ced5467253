// Collections keep the order of insertion and unique names.
// @sources: src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_ctype.cpp models_stream.cpp
// @bounded: (?!any_name).* | at most three elements, whose names are equal or different in every combination
#include "collection_common.h"
#include <Smp/DuplicateName.h>
#include <Xsmp/Collection.h>
namespace {
struct Elem : Named<Smp::MockIField> {
  int *gone = nullptr;
  ~Elem() noexcept override {
    if (gone)
      ++*gone;
  }
};
// adds the objects one after the other and says which are in it
template <bool Dup, class C, class Add> int fill(C &c, const Names &nm, Add add, int in[3], const Smp::IObject *owner) {
  int count = 0;
  for (int i = 0; i < 3; ++i) {
    bool taken = false;
    for (int j = 0; j < count && !Dup; ++j)
      if (nm.same(in[j], i))
        taken = true;
    try {
      add(i);
      ENSURES(!taken);
      in[count++] = i;
    } catch (const Smp::DuplicateName &e) {
      ENSURES(taken);
      ENSURES(text_is(e.GetDuplicateName(), nm.n[i].p));
      ENSURES(!owner || e.GetSender() == owner);
    }
    ENSURES(c.size() == size_t(count));
  }
  return count;
}
// the first element of that name
template <class C, class T> void finds(const C &c, T *const *e, const int *in, int count, const Names &nm) {
  OneName o;
  auto want = o.pick(4, "want");
  T *r = c.at(want.p);
  T *expect = nullptr;
  for (int i = count; i--;)
    if (nm.n[in[i]].len == want.len && memcmp(nm.n[in[i]].p, want.p, want.len) == 0)
      expect = e[in[i]];
  ENSURES(r == expect);
  ENSURES(c.at(static_cast<Smp::String8>(nullptr)) == nullptr);
}
template <bool Dup> void collection() {
  Names nm;
  Named<Smp::MockIObject> parent;
  Elem el[3];
  Smp::IField *e[3] = {&el[0], &el[1], &el[2]};
  for (int i = 0; i < 3; ++i)
    el[i].name_ = nm.n[i].p;
  Xsmp::Collection<Smp::IField, Dup> c("Things", "some things", &parent);
  ENSURES(text_is(c.GetName(), "Things") && text_is(c.GetDescription(), "some things") && c.GetParent() == &parent);
  int in[3];
  int count = fill<Dup>(c, nm, [&](int i) { c.Add(e[i]); }, in, &c);
  holds(c, e, in, count);
  finds(c, e, in, count, nm);
}
template <bool Dup> void removal() {
  Names nm;
  Elem el[3];
  Smp::IField *e[3] = {&el[0], &el[1], &el[2]};
  for (int i = 0; i < 3; ++i)
    el[i].name_ = nm.n[i].p;
  Xsmp::Collection<Smp::IField, Dup> c("Things", "");
  int in[3];
  int count = fill<Dup>(c, nm, [&](int i) { c.Add(e[i]); }, in, &c);
  int k = below(3, "victim");
  bool there = false;
  int left[3], n = 0;
  for (int i = 0; i < count; ++i)
    if (in[i] == k)
      there = true;
    else
      left[n++] = in[i];
  ENSURES(c.Remove(e[k]) == there);
  holds(c, e, left, n);
  finds(c, e, left, n, nm);
  if (there)
    ENSURES(!c.Remove(e[k]));
  c.clear();
  ENSURES(c.empty() && c.size() == 0 && c.at(size_t(0)) == nullptr && !(c.begin() != c.end()));
}
} // namespace
CONTRACT_T(C17, unique, collection<false>)
CONTRACT_T(C17, duplicates, collection<true>)
CONTRACT_T(C17, unique_removal, removal<false>)
CONTRACT_T(C17, duplicate_removal, removal<true>)

// the comparison of names, for names of any length
namespace {
template <class C> void by_name(C &c, const char *name, Smp::IField *e) {
  auto want = spec::cstr("want");
  ENSURES(c.at(want.p) == (strcmp(name, want.p) == 0 ? e : nullptr));
}
} // namespace
CONTRACT(C17, any_name) {
  Elem e;
  e.name_ = spec::cstr("name").p;
  Xsmp::Collection<Smp::IField> c("Things", "");
  c.Add(&e);
  by_name(c, e.name_, &e);
}
CONTRACT(C17, any_name_containing) {
  Xsmp::ContainingCollection<Smp::IField> c("Things", "");
  auto *e = c.Add<Elem>();
  e->name_ = spec::cstr("name").p;
  by_name(c, e->name_, e);
}
CONTRACT(C17, any_name_unique) {
  Elem e, f;
  e.name_ = spec::cstr("e").p;
  f.name_ = spec::cstr("f").p;
  Xsmp::Collection<Smp::IField> c("Things", "");
  c.Add(&e);
  bool same = strcmp(e.name_, f.name_) == 0, refused = false;
  try {
    c.Add(&f);
  } catch (const Smp::DuplicateName &x) {
    refused = true;
  }
  ENSURES(refused == same);
}
namespace {
struct Thing { // not an SMP object by itself
  virtual ~Thing() = default;
};
struct NamedThing : Thing, Named<Smp::MockIObject> {};
} // namespace
CONTRACT(C17, other_types) {
  Names nm;
  NamedThing el[3];
  Thing *e[3] = {&el[0], &el[1], &el[2]};
  for (int i = 0; i < 3; ++i)
    el[i].name_ = nm.n[i].p;
  Xsmp::Collection<Thing> c("Things", "");
  int in[3];
  int count = fill<false>(c, nm, [&](int i) { c.Add(e[i]); }, in, &c);
  holds(c, e, in, count);
  finds(c, e, in, count, nm);
  Thing stranger;
  int refused = 0;
  try {
    c.Add(&stranger);
  } catch (const Smp::Exception &x) {
    ++refused;
    ENSURES(x.GetSender() == &c);
  }
  try {
    c.Remove(&stranger);
  } catch (const Smp::Exception &x) {
    ++refused;
    ENSURES(x.GetSender() == &c);
  }
  ENSURES(refused == 2);
  holds(c, e, in, count);
}
// ... owning its elements
namespace {
template <bool Dup> void containing() {
  Names nm;
  Named<Smp::MockIObject> parent;
  Smp::IField *e[3] = {};
  int gone[3] = {0, 0, 0};
  int in[3];
  {
    Xsmp::ContainingCollection<Smp::IField, Dup> c("Things", "", &parent);
    int count = fill<Dup>(
        c, nm,
        [&](int i) {
          auto p = std::make_unique<Elem>();
          p->name_ = nm.n[i].p;
          p->gone = &gone[i];
          auto *raw = p.get();
          auto *r = c.Add(std::move(p));
          ENSURES(r == raw);
          e[i] = r;
        },
        in, &c);
    // refused elements are released at once, the others are kept
    for (int i = 0; i < 3; ++i)
      ENSURES(gone[i] == (e[i] ? 0 : 1));
    holds(c, e, in, count);
    finds(c, e, in, count, nm);
    int k = below(count, "victim");
    int left[3], n = 0;
    for (int i = 0; i < count; ++i)
      if (i != k)
        left[n++] = in[i];
    ENSURES(c.Remove(e[in[k]]));
    ENSURES(gone[in[k]] == 1);
    holds(c, e, left, n);
    Elem other;
    ENSURES(!c.Remove(&other));
    holds(c, e, left, n);
    if (__spec_choose("clear")) {
      c.clear();
      ENSURES(c.empty() && gone[0] == 1 && gone[1] == 1 && gone[2] == 1);
    }
  }
  ENSURES(gone[0] == 1 && gone[1] == 1 && gone[2] == 1);
}
} // namespace
CONTRACT_T(C17, containing_unique, containing<false>)
CONTRACT_T(C17, containing_duplicates, containing<true>)
CONTRACT(C17, containing_constructs_in_place) {
  Xsmp::ContainingCollection<Smp::IField> c("Things", "");
  auto *e = c.Add<Elem>();
  ENSURES(c.size() == 1 && c.at("obj") == e && c.at(size_t(0)) == e);
}
// the elements of another collection come first
CONTRACT(C17, delegate) {
  Names nm;
  Named<Smp::MockIObject> parent;
  Elem el[3];
  Smp::IField *e[3] = {&el[0], &el[1], &el[2]};
  for (int i = 0; i < 3; ++i)
    el[i].name_ = nm.n[i].p;
  Xsmp::Collection<Smp::IField> base("Base", "the base", &parent);
  Xsmp::DelegateCollection<Smp::IField> c(&base);
  ENSURES(text_is(c.GetName(), "Base") && text_is(c.GetDescription(), "the base") && c.GetParent() == &parent);
  int in[3];
  int first = below(3, "in base");
  int count = fill<false>(
      c, nm,
      [&](int i) {
        if (i < first)
          base.Add(e[i]);
        else
          c.Add(e[i]);
      },
      in, first == 0 ? static_cast<const Smp::IObject *>(&c) : nullptr);
  holds(c, e, in, count);
  finds(c, e, in, count, nm);
}
