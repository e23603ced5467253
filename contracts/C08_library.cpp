// The dynamic-library helpers over the platform loader.  The loader's four
// entry points are renamed (flags below) and given their POSIX meaning here,
// in the verifier and in concrete runs alike.
// @sources: src/Xsmp/LibraryHelper.cpp
// @flags: -Ddlopen=vf_dlopen -Ddlsym=vf_dlsym -Ddlerror=vf_dlerror -Ddlclose=vf_dlclose
#include "string_common.h"
#include <Xsmp/LibraryHelper.h>
#include <dlfcn.h>
namespace {
struct Loader {
  int opens, syms, closes;
  const char *name; // private copy of the name given to the loader
  size_t name_len;
  int mode;
  void *handle;      // given to dlsym or dlclose
  const char *error; // the pending error, or null
  bool error_at_dlsym;
  void *result;
} L;
const char *keep(const char *s, size_t &n) {
  n = strlen(s);
  char *c = static_cast<char *>(malloc(n + 1));
  if (!__spec_native())
    __spec_assume(c != nullptr);
  memcpy(c, s, n + 1);
  return c;
}
void start(bool pending) {
  L = Loader{};
  auto e = spec::cstr("old_error");
  if (pending)
    L.error = e.p;
}
void finish() {
  if (L.name)
    free(const_cast<char *>(L.name));
}
void may_fail() {
  auto e = spec::cstr("new_error");
  if (__spec_choose("fails")) {
    L.error = e.p;
    L.result = nullptr;
  } else
    L.result = reinterpret_cast<void *>(spec::nondet<uintptr_t>("result"));
}
} // namespace
extern "C" {
void *vf_dlopen(const char *f, int mode) noexcept {
  ++L.opens;
  L.name = keep(f, L.name_len);
  L.mode = mode;
  may_fail();
  return L.result;
}
void *vf_dlsym(void *h, const char *n) noexcept {
  ++L.syms;
  L.handle = h;
  L.name = keep(n, L.name_len);
  L.error_at_dlsym = L.error != nullptr;
  may_fail();
  return L.result;
}
char *vf_dlerror() noexcept {
  auto *e = L.error;
  L.error = nullptr;
  return const_cast<char *>(e);
}
int vf_dlclose(void *h) noexcept {
  ++L.closes;
  L.handle = h;
  return spec::nondet<int>("close_result");
}
}
// the loader is asked once for lib<name>.so, resolved at once, and its answer
// is returned as is
CONTRACT(C08, load) {
  start(false);
  auto n = spec::cstr("name");
  size_t live = __spec_live();
  void *r = Xsmp::LoadLibrary(n.p);
  ENSURES(L.opens == 1);
  ENSURES((L.syms == 0) & (L.closes == 0));
  ENSURES(r == L.result);
  ENSURES((L.mode & RTLD_NOW) != 0);
  ENSURES((L.mode & (RTLD_LAZY | RTLD_GLOBAL | RTLD_NOLOAD)) == 0);
  ENSURES(L.name_len == n.len + 6);
  ENSURES((L.name[0] == 'l') & (L.name[1] == 'i') & (L.name[2] == 'b'));
  ENSURES(spec::all(0, n.len, [&](size_t i) { return L.name[3 + i] == n.p[i]; }));
  ENSURES((L.name[n.len + 3] == '.') & (L.name[n.len + 4] == 's') &
          (L.name[n.len + 5] == 'o'));
  finish();
  ENSURES(__spec_live() == live);
}
CONTRACT(C08, load_null) {
  start(true);
  void *r = Xsmp::LoadLibrary(nullptr);
  ENSURES(r == nullptr);
  ENSURES(L.opens == 0);
}
CONTRACT(C08, load_error_text) {
  start(false);
  auto n = spec::cstr("name");
  void *r = Xsmp::LoadLibrary(n.p);
  const char *e = L.error;
  std::string t = Xsmp::GetLastError();
  if (e) {
    size_t k = strlen(e);
    ENSURES(r == nullptr);
    ENSURES(t.size() == k);
    ENSURES(spec::all(0, k, [&](size_t i) { return t.data()[i] == e[i]; }));
  } else
    ENSURES(t.empty());
  finish();
}
CONTRACT(C08, symbol) {
  start(__spec_choose("pending"));
  auto n = spec::cstr("symbol");
  void *h = reinterpret_cast<void *>(spec::nondet<uintptr_t>("handle"));
  size_t live = __spec_live();
  void *r = Xsmp::GetSymbol(h, n.p);
  ENSURES(L.syms == 1);
  ENSURES((L.opens == 0) & (L.closes == 0));
  ENSURES(r == L.result);
  ENSURES(L.handle == h);
  ENSURES(L.name_len == n.len);
  ENSURES(spec::all(0, n.len, [&](size_t i) { return L.name[i] == n.p[i]; }));
  finish();
  ENSURES(__spec_live() == live);
}
// an earlier failure is not mistaken for one of this lookup
CONTRACT(C08, symbol_error_is_its_own) {
  start(__spec_choose("pending"));
  auto n = spec::cstr("symbol");
  void *h = reinterpret_cast<void *>(spec::nondet<uintptr_t>("handle"));
  (void)Xsmp::GetSymbol(h, n.p);
  ENSURES(!L.error_at_dlsym);
  finish();
}
CONTRACT(C08, symbol_null) {
  start(__spec_choose("pending"));
  void *h = reinterpret_cast<void *>(spec::nondet<uintptr_t>("handle"));
  ENSURES(Xsmp::GetSymbol(h, nullptr) == nullptr);
  ENSURES(L.syms == 0);
}
CONTRACT(C08, symbol_typed) {
  start(false);
  auto n = spec::cstr("symbol");
  void *h = reinterpret_cast<void *>(spec::nondet<uintptr_t>("handle"));
  auto *f = Xsmp::GetSymbol<bool (*)(int)>(h, n.p);
  ENSURES(reinterpret_cast<void *>(f) == L.result);
  ENSURES(L.handle == h);
  finish();
}
CONTRACT(C08, close) {
  start(false);
  void *h = reinterpret_cast<void *>(spec::nondet<uintptr_t>("handle"));
  REQUIRES(h != nullptr);
  Xsmp::CloseLibrary(h);
  ENSURES(L.closes == 1);
  ENSURES(L.handle == h);
  ENSURES((L.opens == 0) & (L.syms == 0));
}
CONTRACT(C08, last_error) {
  bool pending = __spec_choose("pending");
  start(pending);
  const char *e = L.error;
  size_t live = __spec_live();
  {
    std::string t = Xsmp::GetLastError();
    if (e) {
      size_t k = strlen(e);
      ENSURES(t.size() == k);
      ENSURES(spec::all(0, k, [&](size_t i) { return t.data()[i] == e[i]; }));
    } else
      ENSURES(t.empty());
    std::string u = Xsmp::GetLastError(); // reported once
    ENSURES(u.empty());
  }
  ENSURES(__spec_live() == live);
}
