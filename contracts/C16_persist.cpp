// What is stored in a state vector is restored from it.
// @sources: src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp
// @flags: -I$V/smp
// @models: models_exceptions.cpp models_stream.cpp models_tree.cpp
// @bounded: vector.*|(unordered_)?(map|set) | containers with at most three elements, restored over at most three
#include "smp_common.h"
#include "storage_common.h"
#include <Smp/CannotRestore.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
namespace P = Xsmp::Persist;
namespace {
enum class Color : int16_t { red, green = 7 };
enum Plain : int { p0, p1 };
struct Disk {
  StateVector v;
  Writer w{v};
  Reader r{v};
  template <class T> void store(const T &x) { P::Store(static_cast<const Smp::ISimulator *>(nullptr), &w, x); }
  template <class T> void restore(T &x) { P::Restore(static_cast<const Smp::ISimulator *>(nullptr), &r, x); }
  void done() { ENSURES(v.pos == v.size); }
};
template <class T> T any(const char *n) {
  if constexpr (std::is_enum_v<T>)
    return static_cast<T>(spec::nondet<std::underlying_type_t<T>>(n));
  else
    return spec::nondet<T>(n);
}
// the same value, bit for bit (also for NaN)
template <class T> bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }

template <class T> void scalar() {
  Disk d;
  const T a = any<T>("a"), copy = a;
  T b = any<T>("b");
  auto tail = spec::nondet<uint32_t>("tail"), got = uint32_t(0);
  d.store(a);
  d.store(tail);
  d.restore(b);
  ENSURES(same(a, b) && same(a, copy));
  d.restore(got);
  ENSURES(got == tail);
  d.done();
}
template <class T> void aggregate(T &a, T &b) {
  Disk d;
  __spec_nondet(&a, sizeof a, "a");
  __spec_nondet(&b, sizeof b, "b");
  T copy;
  memcpy(&copy, &a, sizeof a);
  d.store(a);
  d.restore(b);
  ENSURES(memcmp(&a, &copy, sizeof a) == 0);
  ENSURES(memcmp(&a, &b, sizeof a) == 0);
  d.done();
}
} // namespace
CONTRACT_T(C16, int8, scalar<int8_t>)
CONTRACT_T(C16, int16, scalar<int16_t>)
CONTRACT_T(C16, int32, scalar<int32_t>)
CONTRACT_T(C16, int64, scalar<int64_t>)
CONTRACT_T(C16, uint8, scalar<uint8_t>)
CONTRACT_T(C16, uint16, scalar<uint16_t>)
CONTRACT_T(C16, uint32, scalar<uint32_t>)
CONTRACT_T(C16, uint64, scalar<uint64_t>)
CONTRACT_T(C16, boolean, scalar<bool>)
CONTRACT_T(C16, character, scalar<char>)
CONTRACT_T(C16, float32, scalar<float>)
CONTRACT_T(C16, float64, scalar<double>)
CONTRACT_T(C16, enumeration, scalar<Plain>)
CONTRACT_T(C16, scoped_enumeration, scalar<Color>)
CONTRACT(C16, array) {
  int16_t a[7], b[7];
  aggregate(a, b);
}
CONTRACT(C16, nested_array) {
  double a[3][2], b[3][2];
  aggregate(a, b);
}
CONTRACT(C16, std_array) {
  std::array<std::array<uint32_t, 2>, 5> a, b;
  aggregate(a, b);
}
CONTRACT(C16, pair) {
  std::pair<int64_t, std::array<float, 2>> a, b;
  aggregate(a, b);
}
CONTRACT(C16, atomic) {
  Disk d;
  auto x = spec::nondet<int32_t>("x");
  const std::atomic<int32_t> a{x};
  std::atomic<int32_t> b{spec::nondet<int32_t>("y")};
  d.store(a);
  d.restore(b);
  ENSURES(b.load() == x && a.load() == x);
  d.done();
}
// texts of any length: the writer gets the length and then all characters
namespace {
struct OneWriter : Smp::MockIStorageWriter {
  uint64_t size = 0;
  char *bytes = nullptr;
  int step = 0;
  void Store(void *address, Smp::UInt64 n) override {
    ENSURES(__spec_valid(address, n));
    if (step++ == 0) {
      ENSURES(n == sizeof size);
      memcpy(&size, address, sizeof size);
      return;
    }
    bytes = static_cast<char *>(malloc(n));
    REQUIRES(bytes);
    memcpy(bytes, address, n);
    total = n;
  }
  size_t total = 0;
};
struct OneReader : Smp::MockIStorageReader {
  OneWriter &w;
  int step = 0;
  explicit OneReader(OneWriter &x) : w(x) {}
  void Restore(void *address, Smp::UInt64 n) override {
    ENSURES(__spec_valid(address, n));
    if (step++ == 0) {
      ENSURES(n == sizeof w.size);
      memcpy(address, &w.size, sizeof w.size);
      return;
    }
    ENSURES(n == w.total);
    memcpy(address, w.bytes, n);
  }
};
template <class C> void text() {
  const Smp::ISimulator *sim = nullptr;
  OneWriter w;
  OneReader r{w};
  auto n = spec::nondet<size_t>("n");
  REQUIRES(n <= (size_t(1) << 40));
  if (__spec_native())
    n %= 40;
  auto *p = reinterpret_cast<const C *>(spec::bytes(n * sizeof(C), "text"));
  std::basic_string<C> a(p, n), b;
  if (__spec_choose("old content"))
    b.resize(3);
  P::Store(sim, &w, a);
  ENSURES(a.size() == n && memcmp(a.data(), p, n * sizeof(C)) == 0);
  P::Restore(sim, &r, b);
  ENSURES(b.size() == n);
  ENSURES(memcmp(b.data(), p, n * sizeof(C)) == 0);
  ENSURES(w.step == r.step);
  free(w.bytes);
}
} // namespace
CONTRACT_T(C16, string, text<char>)
CONTRACT_T(C16, string16, text<char16_t>)
CONTRACT_T(C16, string32, text<char32_t>)

namespace {
int few(const char *n) {
  auto k = spec::nondet<int>(n);
  REQUIRES(k >= 0 && k <= 3);
  return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3;
}
} // namespace
CONTRACT(C16, vector) {
  Disk d;
  std::vector<int16_t> a, b;
  for (int i = few("n"); i; --i)
    a.push_back(spec::nondet<int16_t>("e"));
  for (int i = few("old"); i; --i)
    b.push_back(spec::nondet<int16_t>("o"));
  d.store(a);
  d.restore(b);
  ENSURES(a.size() == b.size());
  for (size_t i = 0; i < a.size(); ++i)
    ENSURES(a[i] == b[i]);
  d.done();
}
CONTRACT(C16, vector_of_vectors) {
  Disk d;
  std::vector<std::vector<int32_t>> a, b;
  a.push_back({spec::nondet<int32_t>("x"), spec::nondet<int32_t>("y")});
  a.push_back({});
  a.push_back({spec::nondet<int32_t>("z")});
  d.store(a);
  d.restore(b);
  ENSURES(b.size() == 3 && b[0].size() == 2 && b[1].empty() && b[2].size() == 1);
  ENSURES(b[0][0] == a[0][0] && b[0][1] == a[0][1] && b[2][0] == a[2][0]);
  d.done();
}
namespace {
template <class M> void mapping() {
  Disk d;
  M a, b;
  for (int i = 0, n = few("n"); i < n; ++i)
    a[spec::nondet<int16_t>("k")] = spec::nondet<int32_t>("v");
  for (int i = 0, n = __spec_choose("old") ? 1 : 0; i < n; ++i)
    b[spec::nondet<int16_t>("ok")] = spec::nondet<int32_t>("ov");
  d.store(a);
  d.restore(b);
  d.done();
  ENSURES(a.size() == b.size());
  for (auto &e : a) {
    auto it = b.find(e.first);
    ENSURES(it != b.end() && it->second == e.second);
  }
}
template <class M> void collection() {
  Disk d;
  M a, b;
  for (int i = 0, n = few("n"); i < n; ++i)
    a.insert(spec::nondet<int16_t>("k"));
  for (int i = 0, n = __spec_choose("old") ? 1 : 0; i < n; ++i)
    b.insert(spec::nondet<int16_t>("ok"));
  d.store(a);
  d.restore(b);
  d.done();
  ENSURES(a.size() == b.size());
  for (auto &e : a)
    ENSURES(b.count(e) == 1);
}
} // namespace
CONTRACT_T(C16, map, mapping<std::map<int16_t, int32_t>>)
CONTRACT_T(C16, unordered_map, mapping<std::unordered_map<int16_t, int32_t>>)
CONTRACT_T(C16, set, collection<std::set<int16_t>>)
CONTRACT_T(C16, unordered_set, collection<std::unordered_set<int16_t>>)

// typed fields: each is preceded by its type, and a wrong type is refused
CONTRACT(C16, several_fields) {
  Disk d;
  Named<Smp::MockIObject> me;
  const Smp::ISimulator *sim = nullptr;
  const auto a = spec::nondet<int32_t>("a");
  const auto b = spec::nondet<uint8_t>("b");
  const auto c = any<Color>("c");
  int32_t x;
  uint8_t y;
  Color z;
  P::Store(sim, &me, &d.w, a, b, c);
  P::Restore(sim, &me, &d.r, x, y, z);
  ENSURES(x == a && y == b && z == c);
  d.done();
}
namespace {
template <class T, class U> void mismatch() {
  REQUIRES(typeid(T).hash_code() != typeid(U).hash_code());
  Disk d;
  Named<Smp::MockIObject> me;
  const Smp::ISimulator *sim = nullptr;
  const auto a = spec::nondet<int16_t>("a");
  const auto b = any<T>("b");
  int16_t x;
  auto y = any<U>("y");
  const auto old = y;
  P::Store(sim, &me, &d.w, a, b);
  bool refused = false;
  try {
    P::Restore(sim, &me, &d.r, x, y);
  } catch (const Smp::CannotRestore &e) {
    refused = true;
    ENSURES(e.GetSender() == &me);
  }
  ENSURES(refused && x == a && same(y, old));
}
} // namespace
CONTRACT_T(C16, other_size, mismatch<int32_t, int64_t>)
CONTRACT_T(C16, same_size, mismatch<int32_t, uint32_t>)
CONTRACT_T(C16, number_for_enumeration, mismatch<int16_t, Color>)
CONTRACT_T(C16, float_for_integer, mismatch<float, int32_t>)

// references to objects go by their path
namespace {
struct Resolver : Named<Smp::Services::MockIResolver> {
  Smp::IObject *found = nullptr;
  const char *want = nullptr;
  int asked = 0;
  Smp::IObject *ResolveAbsolute(Smp::String8 path) override {
    ENSURES(text_is(path, want));
    ++asked;
    return found;
  }
};
struct Sim : Named<Smp::MockISimulator> {
  Resolver r;
  Sim() : Named("sim") {}
  Smp::Services::IResolver *GetResolver() const override { return const_cast<Resolver *>(&r); }
};
} // namespace
CONTRACT(C16, object_reference) {
  Disk d;
  Sim sim;
  Named<Smp::MockIModel> m("m", &sim);
  Named<Smp::MockIField> f("f", &m);
  Smp::IField *a = &f, *b = nullptr;
  P::Store(&sim, &d.w, a);
  sim.r.want = "/m.f";
  int found = few("found");
  sim.r.found = found == 0 ? static_cast<Smp::IObject *>(nullptr) : found == 1 ? static_cast<Smp::IObject *>(&m) : &f;
  if (__spec_choose("old"))
    b = a;
  P::Restore(&sim, &d.r, b);
  ENSURES(sim.r.asked == 1);
  ENSURES(b == (found > 1 ? a : nullptr)); // nothing, or another kind of object, was found
  d.done();
}
