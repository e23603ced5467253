// Concrete meaning of the contract primitives: replays a counterexample of the
// verifier on the real code, or looks for a failing input by seeded search.
//   prog CONTRACT --replay FILE
//   prog CONTRACT --search SEED SECONDS OUTFILE
//   prog --list
// exit 0: nothing failed, 1: a postcondition failed, 2: memory/UB/terminate,
// 3: the precondition does not hold for this input (replay only)
#define SPEC_NATIVE 1
#include "../contracts/spec.h"
#include <sanitizer/asan_interface.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// the runtime's own data must not go through the counted operator new
template <class T> struct Mal {
  using value_type = T;
  Mal() = default;
  template <class U> Mal(const Mal<U> &) {}
  T *allocate(size_t n) { return static_cast<T *>(malloc(n * sizeof(T))); }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(const Mal<U> &) const { return true; }
  template <class U> bool operator!=(const Mal<U> &) const { return false; }
};
#include <map>
#include <vector>
template <class K, class V>
using Map = std::map<K, V, std::less<K>, Mal<std::pair<const K, V>>>;
template <class T> using Vec = std::vector<T, Mal<T>>;
using Str = std::basic_string<char, std::char_traits<char>, Mal<char>>;

namespace {
struct Shared {
  char msg[2048];
  size_t loglen;
  long trials;
  char log[1 << 22];
};
Shared *sh;
bool replayMode, discarded, failed, inRun;
struct Rec {
  Str data;
};
Map<Str, Vec<Rec>> *recs;
Map<Str, size_t> *pos;
struct Buf {
  unsigned char *p;
  size_t n;
  bool ro;
  unsigned char *copy;
  bool killed;
};
Vec<Buf> *bufs;
struct Ro {
  const unsigned char *p;
  size_t n;
  unsigned char *copy;
};
struct Al {
  size_t n;
  bool array;
};
Map<void *, Al> *live;
int injectMode;
uint64_t rng;
uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 2685821657736338717ull;
}
void logf(const char *kind, const char *name, const unsigned char *d, size_t n,
          bool withLen) {
  if (!sh || replayMode)
    return;
  char *o = sh->log + sh->loglen;
  if (sh->loglen + 2 * n + 256 > sizeof sh->log)
    return;
  int k = withLen ? sprintf(o, "%s %s %zu ", kind, name, n)
                  : sprintf(o, "%s %s ", kind, name);
  for (char *c = o + 2, *e = c + strlen(name); c < e; ++c)
    if (*c == ' ')
      *c = '_';
  o += k;
  for (size_t i = 0; i < n; ++i)
    o += sprintf(o, "%02x", d[i]);
  if (!n)
    *o++ = '-';
  *o++ = '\n';
  *o = 0;
  sh->loglen = o - sh->log;
}
void fail(const char *m) {
  if (discarded || failed)
    return;
  failed = true;
  if (sh)
    snprintf(sh->msg, sizeof sh->msg, "%s", m);
  fprintf(stderr, "FAILED: %s\n", m);
}
const Str *next(const char *kind, const char *name) {
  Str k = Str(kind) + " " + name;
  for (size_t i = 2; i < k.size(); ++i)
    if (k[i] == ' ')
      k[i] = '_'; // as in the records
  auto it = recs->find(k);
  if (it == recs->end())
    return nullptr;
  size_t &p = (*pos)[k];
  if (p >= it->second.size())
    return nullptr;
  return &it->second[p++].data;
}
const unsigned char alpha[] = {'a', 'b', 'c', ' ', 'A', '0', '9', '_', '.',
                               '/', 0x80, 0xff, '[', ']', 0x7f, 1};
void gen(unsigned char *p, size_t n) {
  switch (rnd() % 8) {
  case 0:
    memset(p, 0, n);
    break;
  case 1:
    memset(p, 0xff, n);
    break;
  case 2:
    memset(p, 0, n);
    p[0] = rnd() % 4;
    break;
  case 3:
    memset(p, 0xff, n);
    p[n - 1] = 0x7f;
    break;
  case 4:
    memset(p, 0, n);
    p[n - 1] = 0x80;
    break;
  case 5:
    memset(p, 0, n);
    p[0] = rnd() % 24;
    break;
  case 6:
    memset(p, 0, n);
    p[0] = alpha[rnd() % sizeof alpha];
    break;
  default:
    for (size_t i = 0; i < n; ++i)
      p[i] = rnd() >> 24;
  }
}
void genText(unsigned char *p, size_t n, bool nul) {
  unsigned k = 2 + rnd() % 14;
  for (size_t i = 0; i < n; ++i) {
    p[i] = alpha[rnd() % k];
    if (nul && rnd() % 12 == 0)
      p[i] = 0;
  }
}
unsigned char *newBuf(size_t n) {
  auto *p = static_cast<unsigned char *>(malloc(n ? n : 1));
  if (!n)
    ASAN_POISON_MEMORY_REGION(p, 1);
  bufs->push_back({p, n, false, nullptr, false});
  return p;
}
void checkReadOnly() {
  for (auto &b : *bufs)
    if (b.copy && !b.killed && memcmp(b.copy, b.p, b.n))
      fail("code under contract modified a read-only object");
}
void resetRun() {
  for (auto &b : *bufs) {
    if (!b.killed)
      free(b.p);
    free(b.copy);
  }
  bufs->clear();
  injectMode = 0;
  discarded = failed = false;
}
} // namespace

extern "C" {
void __spec_assume(bool b) {
  if (!b) {
    if (!failed)
      discarded = true;
    throw spec::Discard{};
  }
}
void __spec_assert(bool b, const char *m) {
  if (!b) {
    fail(m);
    if (!replayMode)
      throw spec::Discard{};
  }
}
void __spec_fail(const char *m) { fail(m); }
void __spec_nondet(void *d, size_t n, const char *name) {
  auto *p = static_cast<unsigned char *>(d);
  if (replayMode) {
    memset(p, 0, n);
    if (auto *r = next("N", name))
      memcpy(p, r->data(), r->size() < n ? r->size() : n);
  } else {
    gen(p, n);
    if (n == sizeof(size_t) && rnd() % 8) { // lengths and indices: mostly small
      static const char *const sizes[] = {"n", "len", "count", "pos", "i"};
      for (auto *z : sizes)
        if (!strcmp(z, name)) {
          size_t v = rnd() % 8 ? rnd() % 24 : rnd() % 400;
          memcpy(p, &v, n);
        }
    }
    logf("N", name, p, n, false);
  }
}
void __spec_fillbuf(void *d, size_t n, const char *name) {
  auto *p = static_cast<unsigned char *>(d);
  if (replayMode) {
    memset(p, 0, n);
    if (auto *r = next("B", name))
      memcpy(p, r->data(), r->size() < n ? r->size() : n);
  } else {
    if (rnd() % 4 == 0)
      for (size_t i = 0; i < n; ++i)
        p[i] = rnd() >> 16;
    else
      genText(p, n, true);
    logf("B", name, p, n, true);
  }
}
void *__spec_buf(size_t n, const char *name) {
  if (n > (size_t(1) << 30)) {
    discarded = true;
    throw spec::Discard{};
  }
  auto *p = newBuf(n);
  if (n)
    __spec_fillbuf(p, n, name);
  return p;
}
char *__spec_cstr(size_t *len, const char *name) {
  unsigned char *p;
  if (replayMode) {
    auto *r = next("S", name);
    size_t n = r ? r->size() : 0;
    if (r && n > (size_t(1) << 30))
      n = 0;
    p = newBuf(n + 1);
    if (r)
      memcpy(p, r->data(), n);
    for (size_t i = 0; i < n; ++i)
      if (!p[i])
        p[i] = 'a';
    p[n] = 0;
    *len = n;
  } else {
    size_t n = rnd() % 3 ? rnd() % 12 : rnd() % 400;
    p = newBuf(n + 1);
    genText(p, n, false);
    p[n] = 0;
    logf("S", name, p, n, true);
    *len = n;
  }
  return reinterpret_cast<char *>(p);
}
bool __spec_forall(size_t lo, size_t hi, bool (*f)(void *, size_t), void *c) {
  for (size_t i = lo; i < hi; ++i)
    if (!f(c, i))
      return false;
  return true;
}
void __spec_readonly(const void *q, unsigned long on) {
  for (auto &b : *bufs)
    if (q >= b.p && q < b.p + (b.n ? b.n : 1)) {
      if (on && !b.copy) {
        b.copy = static_cast<unsigned char *>(malloc(b.n ? b.n : 1));
        memcpy(b.copy, b.p, b.n);
      } else if (!on && b.copy) {
        free(b.copy);
        b.copy = nullptr;
      }
    }
}
size_t __spec_live() { return live->size(); }
void __spec_bad_alloc(int m) { injectMode = m; }
bool __spec_valid(const void *p, size_t n) {
  if (!p)
    return n == 0;
  return !n || !__asan_region_is_poisoned(const_cast<void *>(p), n);
}
bool __spec_same_object(const void *a, const void *b) {
  auto *x = static_cast<const char *>(a), *y = static_cast<const char *>(b);
  if (x > y)
    std::swap(x, y);
  return y - x < (1l << 30) &&
         !__asan_region_is_poisoned(const_cast<char *>(x), y - x + 1);
}
bool __spec_heap_array(const void *p) {
  auto it = live->find(const_cast<void *>(p));
  return it != live->end() && it->second.array;
}
void __spec_kill(const void *q) {
  for (auto &b : *bufs)
    if (q == b.p && !b.killed) {
      b.killed = true;
      free(b.p);
    }
}
void __spec_cover(const char *) {}
bool __spec_choose(const char *name) {
  unsigned char c = 0;
  if (replayMode) {
    if (auto *r = next("N", name))
      c = (*r)[0];
  } else {
    c = rnd() & 1;
    logf("N", name, &c, 1, false);
  }
  return c & 1;
}
bool __spec_native() { return true; }
}

static void *doNew(size_t n, bool arr) {
  if (inRun && injectMode) {
    unsigned char c = 0;
    if (replayMode) {
      if (auto *r = next("N", "bad_alloc"))
        c = (*r)[0];
    } else {
      c = rnd() % 4 == 0;
      logf("N", "bad_alloc", &c, 1, false);
    }
    if (c)
      throw std::bad_alloc();
  }
  if (n > (size_t(1) << 32))
    throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!n)
    ASAN_POISON_MEMORY_REGION(p, 1);
  else
    memset(p, 0xA5, n);
  if (live)
    (*live)[p] = {n, arr};
  return p;
}
static void doDelete(void *p, bool arr) {
  if (!p)
    return;
  if (live) {
    auto it = live->find(p);
    if (it == live->end()) {
      if (inRun)
        fail("delete of a pointer that is not a live allocation");
      else {
        free(p);
        return;
      }
    } else {
      if (it->second.array != arr && inRun)
        fail("new/delete kind mismatch");
      live->erase(it);
    }
  }
  free(p);
}
void *operator new(size_t n) { return doNew(n, false); }
void *operator new[](size_t n) { return doNew(n, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  try {
    return doNew(n, false);
  } catch (...) {
    return nullptr;
  }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  try {
    return doNew(n, true);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void *p) noexcept { doDelete(p, false); }
void operator delete[](void *p) noexcept { doDelete(p, true); }
void operator delete(void *p, size_t) noexcept { doDelete(p, false); }
void operator delete[](void *p, size_t) noexcept { doDelete(p, true); }

struct Entry {
  const char *n;
  void (*f)();
};
static Entry entries[8192];
static int nentries;
spec::Reg::Reg(const char *n, void (*f)()) { entries[nentries++] = {n, f}; }

static int runOnce(void (*f)()) {
  inRun = true;
  try {
    f();
  } catch (const spec::Discard &) {
  } catch (const std::exception &e) {
    Str m = Str("exception left the contract: ") + e.what();
    fail(m.c_str());
  } catch (...) {
    fail("exception left the contract");
  }
  injectMode = 0;
  inRun = false;
  if (!discarded)
    checkReadOnly();
  int rc = failed ? 1 : discarded ? 3 : 0;
  resetRun();
  return rc;
}
static void onTerminate() {
  if (discarded)
    _exit(replayMode ? 3 : 77);
  if (failed)
    _exit(1);
  if (sh)
    snprintf(sh->msg, sizeof sh->msg, "std::terminate called");
  fprintf(stderr, "FAILED: std::terminate called\n");
  _exit(2);
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void readReplay(const char *file) {
  FILE *fp = fopen(file, "r");
  if (!fp) {
    perror(file);
    exit(4);
  }
  char *line = nullptr;
  size_t cap = 0;
  ssize_t k;
  while ((k = getline(&line, &cap, fp)) > 0) {
    if ((line[0] != 'N' && line[0] != 'S' && line[0] != 'B') || line[1] != ' ')
      continue;
    char *name = line + 2, *sp = strchr(name, ' ');
    if (!sp)
      continue;
    *sp = 0;
    char *hex = sp + 1;
    size_t want = 0;
    bool sized = line[0] != 'N';
    if (sized) {
      char *e;
      want = strtoull(hex, &e, 10);
      if (*e != ' ')
        continue;
      hex = e + 1;
    }
    Rec r;
    for (char *h = hex; isxdigit(h[0]) && isxdigit(h[1]); h += 2)
      r.data.push_back(char(hexv(h[0]) * 16 + hexv(h[1])));
    if (sized && want <= (size_t(1) << 30))
      r.data.resize(want);
    Str key(1, line[0]);
    key += " ";
    key += name;
    (*recs)[key].push_back(r);
  }
  free(line);
  fclose(fp);
}
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=2:"
         "detect_stack_use_after_return=1:handle_abort=1:"
         "malloc_context_size=8";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=1:exitcode=2:halt_on_error=1";
}
int main(int argc, char **argv) {
  recs = new (malloc(sizeof *recs)) Map<Str, Vec<Rec>>;
  pos = new (malloc(sizeof *pos)) Map<Str, size_t>;
  bufs = new (malloc(sizeof *bufs)) Vec<Buf>;
  std::set_terminate(onTerminate);
  if (argc > 1 && !strcmp(argv[1], "--list")) {
    for (int i = 0; i < nentries; ++i)
      puts(entries[i].n);
    return 0;
  }
  live = new (malloc(sizeof *live)) Map<void *, Al>;
  if (argc < 4)
    return 4;
  void (*f)() = nullptr;
  for (int i = 0; i < nentries; ++i)
    if (!strcmp(entries[i].n, argv[1]))
      f = entries[i].f;
  if (!f) {
    fprintf(stderr, "no such contract\n");
    return 4;
  }
  if (!strcmp(argv[2], "--replay")) {
    replayMode = true;
    readReplay(argv[3]);
    int rc = runOnce(f);
    return rc;
  }
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double secs = atof(argv[4]);
  sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                  PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto t0 = std::chrono::system_clock::now();
  auto elapsed = [&] {
    return std::chrono::duration<double>(std::chrono::system_clock::now() - t0)
        .count();
  };
  long total = 0;
  for (uint64_t batch = 0; elapsed() < secs; ++batch) {
    fflush(stdout);
    fflush(stderr);
    sh->trials = 0;
    pid_t pid = fork();
    if (!pid) {
      for (int i = 0; i < 2000; ++i) {
        if (elapsed() > secs)
          _exit(0);
        rng = (seed * 1000003 + batch) * 2654435761u + i * 0x9E3779B97F4A7C15ull;
        if (!rng)
          rng = 1;
        rnd();
        rnd();
        sh->loglen = 0;
        sh->log[0] = 0;
        sh->msg[0] = 0;
        alarm(10); // one trial that takes longer does not finish
        int rc = runOnce(f);
        alarm(0);
        sh->trials++;
        if (rc == 1)
          _exit(1);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    total += sh->trials;
    bool bad = false;
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77)
      bad = true;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
      bad = true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
      snprintf(sh->msg, sizeof sh->msg, "the code did not finish");
    if (bad) {
      FILE *fp = fopen(argv[5], "w");
      fprintf(fp, "# contract %s\n# %s\n", argv[1],
              sh->msg[0] ? sh->msg : "memory error or undefined behaviour");
      fwrite(sh->log, 1, sh->loglen, fp);
      fclose(fp);
      printf("found after %ld trials: %s\n", total, sh->msg);
      return 1;
    }
  }
  printf("nothing found in %ld trials\n", total);
  return 0;
}
