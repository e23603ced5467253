// vcgen: deductive verifier for C++ code compiled to LLVM IR.
//
// Input : a linked LLVM bitcode module (the real code of /repo, the contract
//         functions of /verif/contracts, and the models of dependencies).
// Output: one JSON document per contract function: obligations generated and
//         discharged, failures with counterexample inputs, functions covered.
//
// The verifier executes a contract function symbolically.  Every branch is
// followed (feasibility decided by z3), every memory access, arithmetic
// operation with undefined overflow, call precondition and ensures clause is an
// obligation proved valid for all inputs reaching it.  Loops are either fully
// unrolled (the infeasibility of another iteration is itself proved) or
// replaced by an inferred inductive invariant that is proved inductive.
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using std::unique_ptr;
using std::unordered_map;
using E = z3::expr;

static z3::context *ZC;
static z3::context &C() { return *ZC; }

// ---------------------------------------------------------------- utilities
static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double g_deadline = 1e18;
// once an obligation is refuted the rest of the contract gets this many seconds
static double g_after_fail = 15;
static int g_verbose = 0;
static int g_unroll_cap = 48;
static int g_bounded_unroll = 7;
static unsigned g_query_ms = 8000;
static int g_max_paths = 20000;
static string g_workdir = "/tmp";
static bool g_crosscheck = false;
static int g_ext_secs = 40;
static int g_split_secs = 90;

struct Unsupported {
  string what;
};
struct PathEnd {}; // this path is finished (infeasible, or a failed obligation)
struct ForkReq {
  E cond;
};
struct Budget {
  string what;
};

static E bv(uint64_t v, unsigned w = 64) { return C().bv_val((uint64_t)v, w); }
static E T() { return C().bool_val(true); }
static E Fa() { return C().bool_val(false); }
// operations on numerals are computed directly, everything else is simplified
// by z3 and remembered
static bool foldBv(const E &e, E &out) {
  Z3_context c = C();
  Z3_app a = Z3_to_app(c, e);
  unsigned n = Z3_get_app_num_args(c, a);
  if (n != 2)
    return false;
  Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, a));
  switch (k) {
  case Z3_OP_BADD: case Z3_OP_BSUB: case Z3_OP_BMUL: case Z3_OP_BAND: case Z3_OP_BOR: case Z3_OP_BXOR:
  case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT: case Z3_OP_EQ:
  case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT:
    break;
  default:
    return false;
  }
  Z3_ast x = Z3_get_app_arg(c, a, 0), y = Z3_get_app_arg(c, a, 1);
  if (Z3_get_ast_kind(c, x) != Z3_NUMERAL_AST || Z3_get_ast_kind(c, y) != Z3_NUMERAL_AST)
    return false;
  Z3_sort so = Z3_get_sort(c, x);
  if (Z3_get_sort_kind(c, so) != Z3_BV_SORT)
    return false;
  unsigned w = Z3_get_bv_sort_size(c, so);
  uint64_t u, v;
  if (w > 64 || !Z3_get_numeral_uint64(c, x, &u) || !Z3_get_numeral_uint64(c, y, &v))
    return false;
  auto sx = [w](uint64_t z) { return w == 64 ? (int64_t)z : (int64_t)(z << (64 - w)) >> (64 - w); };
  uint64_t mask = w == 64 ? ~0ULL : (1ULL << w) - 1;
  auto val = [&](uint64_t z) { out = C().bv_val((uint64_t)(z & mask), w); return true; };
  auto tf = [&](bool b) { out = C().bool_val(b); return true; };
  switch (k) {
  case Z3_OP_BADD: return val(u + v);
  case Z3_OP_BSUB: return val(u - v);
  case Z3_OP_BMUL: return val(u * v);
  case Z3_OP_BAND: return val(u & v);
  case Z3_OP_BOR: return val(u | v);
  case Z3_OP_BXOR: return val(u ^ v);
  case Z3_OP_ULEQ: return tf(u <= v);
  case Z3_OP_ULT: return tf(u < v);
  case Z3_OP_UGEQ: return tf(u >= v);
  case Z3_OP_UGT: return tf(u > v);
  case Z3_OP_EQ: return tf(u == v);
  case Z3_OP_SLEQ: return tf(sx(u) <= sx(v));
  case Z3_OP_SLT: return tf(sx(u) < sx(v));
  case Z3_OP_SGEQ: return tf(sx(u) >= sx(v));
  default: return tf(sx(u) > sx(v));
  }
}
static E S(const E &e) {
  static z3::params p = [] {
    z3::params p(C());
    p.set("bv_le2extract", false);
    return p;
  }();
  Z3_context c = C();
  Z3_ast_kind k = Z3_get_ast_kind(c, e);
  if (k == Z3_NUMERAL_AST)
    return e;
  if (k == Z3_APP_AST) {
    Z3_app a = Z3_to_app(c, e);
    if (Z3_get_app_num_args(c, a) == 0)
      return e;
    E out = e;
    if (foldBv(e, out))
      return out;
  }
  static std::unordered_map<unsigned, std::pair<E, E>> memo;
  unsigned id = Z3_get_ast_id(c, e);
  auto it = memo.find(id);
  if (it != memo.end())
    return it->second.second;
  if (memo.size() > 60000)
    memo.clear();
  E r = e.simplify(p);
  memo.emplace(id, std::make_pair(e, r));
  return r;
}
static bool isT(const E &e) { return e.is_true(); }
static bool isF(const E &e) { return e.is_false(); }
static bool cst(const E &e, uint64_t &v) {
  return e.is_bv() && e.is_numeral_u64(v);
}
static bool isConst(const E &e) {
  uint64_t v;
  return cst(e, v);
}
static uint64_t cval(const E &e) {
  uint64_t v = 0;
  if (!cst(e, v))
    throw Unsupported{"constant expected: " + e.to_string()};
  return v;
}
static unsigned g_fresh = 0;
static E freshBV(const string &n, unsigned w) {
  return C().bv_const((n + "!" + std::to_string(g_fresh++)).c_str(), w);
}
static E freshBool(const string &n) {
  return C().bool_const((n + "!" + std::to_string(g_fresh++)).c_str());
}
static z3::func_decl freshUF(const string &n) {
  return C().function((n + "!" + std::to_string(g_fresh++)).c_str(),
                      C().bv_sort(64), C().bv_sort(8));
}
static E b2bv(const E &b, unsigned w) { return z3::ite(b, bv(1, w), bv(0, w)); }
static E mkAnd(const E &a, const E &b) {
  if (isT(a))
    return b;
  if (isT(b))
    return a;
  if (isF(a) || isF(b))
    return Fa();
  return a && b;
}
static E ex(const E &e, unsigned hi, unsigned lo) { return e.extract(hi, lo); }

static string jstr(const string &s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

// ---------------------------------------------------------------- values
struct Val {
  E e;
  shared_ptr<vector<Val>> agg;
  Val() : e(C()) {}
  Val(const E &x) : e(x) {}
  bool isAgg() const { return (bool)agg; }
};

// ---------------------------------------------------------------- memory
struct MNode;
using MP = shared_ptr<MNode>;
struct MNode {
  enum K { Base, Data, Store, Fill, Copy, Lambda } k;
  MP prev;
  z3::func_decl f; // Base
  vector<uint8_t> data;
  bool zero = false; // Base: all zero
  E off, val, len, soff; // Store: off,val ; Fill: off,len,val ; Copy: off,len,soff
  unsigned sz = 0;
  MP src;
  // Lambda: elements off+es*j (j<len) hold val[var:=j]
  E var;
  uint64_t es = 0;
  bool constElem = false;
  MNode() : f(C()), off(C()), val(C()), len(C()), soff(C()), var(C()) {}
};
struct Cell {
  unsigned sz;
  E v;
};
struct Obj {
  int id;
  string name;
  E base, size;
  enum Kind { Stack, New, NewArr, Malloc, Global, Func, Ext, Exc } kind;
  bool alive = true, readonly = false, garbage = false;
  string why; // why read-only
  MP chain;
  map<uint64_t, Cell> cells;
  Obj() : base(C()), size(C()) {}
};
using OP = shared_ptr<Obj>;

static MP mkBase(const string &n) {
  auto m = std::make_shared<MNode>();
  m->k = MNode::Base;
  m->f = freshUF(n);
  return m;
}
static MP mkZero() {
  auto m = std::make_shared<MNode>();
  m->k = MNode::Base;
  m->zero = true;
  return m;
}

// ---------------------------------------------------------------- state
struct Fact { // guard && lo<=k<hi  ==> body(k)
  E k, guard, lo, hi, body;
  // triggers: f applied to (k<<shift)+c, or equality with term
  struct Trig {
    unsigned fdecl; // func_decl id
    unsigned shift;
    E c;
    bool neg;
  };
  vector<Trig> trigs;
  vector<E> terms; // direct instantiation terms
  Fact() : k(C()), guard(C()), lo(C()), hi(C()), body(C()) {}
};
using FactP = shared_ptr<Fact>;

struct NDRec {
  char kind; // N: bytes value, S: cstring, B: buffer
  string name;
  E len;     // S: length, B: size
  E val;     // N
  z3::func_decl f;
  unsigned n = 0;
  NDRec() : len(C()), val(C()), f(C()) {}
};

struct Frame {
  Function *F = nullptr;
  BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::iterator it;
  vector<Val> slots; // indexed by FnInfo numbering
  CallBase *site = nullptr;
  vector<int> allocas;
  map<BasicBlock *, int> iters, citers;
  map<BasicBlock *, size_t> pcAt;
  bool stopHere = false;
  vector<Val> varargs;
};
using FP = shared_ptr<Frame>;

struct State {
  vector<FP> st;
  map<int, OP> objs;
  vector<E> pc;
  vector<FactP> facts;
  shared_ptr<z3::model> lm; // a model of the first lmPc path conditions
  size_t lmPc = 0, lmFacts = 0;
  vector<NDRec> nd;
  // exceptions
  struct Exc {
    E ptr;
    string type;
    int obj;
    Function *dtor = nullptr;
    bool rethrown = false;
    Exc() : ptr(C()) {}
  };
  bool unwinding = false;
  Exc cur;
  vector<Exc> caught;
  // result of run
  bool finished = false;
  Val ret;
  bool badAlloc = false;
  long failAt = 0;
  int depthTrial = 0;
  set<string> covers;
  // write log for loop summaries
  struct W {
    int obj;
    E off;
    unsigned n;
    E val;
    W() : off(C()), val(C()) {}
  };
  bool logW = false;
  bool logBad = false; // something not expressible happened
  vector<W> wlog;
  int pureDepth = 0;
  bool boundedCut = false;
  bool hasChoice = false;
  E choice;
  State() : choice(C()) {}
};

static State cloneState(const State &s) { return s; }

// ---------------------------------------------------------------- globals
static Module *M;
static const DataLayout *DL;
static unordered_map<unsigned, int> g_baseId; // decl id -> obj id
static vector<E> g_keep;
static int g_objCtr = 1;
static map<const GlobalValue *, int> g_gobj;
static map<int, OP> g_ginit;
static map<int, Function *> g_funcOf;
static map<string, Function *> g_models;
static map<Function *, unique_ptr<LoopInfo>> g_li;
static map<Function *, unique_ptr<DominatorTree>> g_dt;
static map<Function *, unique_ptr<DenseMap<const Value *, int>>> g_idx;
static DenseMap<const Value *, int> &idxOf(Function *F) {
  auto &p = g_idx[F];
  if (!p) {
    p = std::make_unique<DenseMap<const Value *, int>>();
    int n = 0;
    for (auto &a : F->args())
      (*p)[&a] = n++;
    for (auto &i : instructions(*F))
      (*p)[&i] = n++;
  }
  return *p;
}
static LoopInfo &loopsOf(Function *F) {
  auto &p = g_li[F];
  if (!p) {
    g_dt[F] = std::make_unique<DominatorTree>(*F);
    p = std::make_unique<LoopInfo>(*g_dt[F]);
  }
  return *p;
}

// what to do with a loop
static set<BasicBlock *> g_summarise, g_boundedLoops;
struct Restart {
  BasicBlock *h;
};

// ---------------------------------------------------------------- report
struct Failure {
  string kind, msg, loc, verdict;
  vector<string> stack;
  string replay; // nondet values
  bool hadFacts = false;
};
struct Report {
  string contract;
  map<string, long> kinds; // obligations by kind
  long trivial = 0, smt = 0, ext = 0, cross = 0, crossDisagree = 0;
  long obligations = 0, discharged = 0;
  double solverTime = 0;
  long queries = 0, paths = 0, ended = 0;
  vector<Failure> fails;
  vector<string> undecided;
  set<string> repoFns, models, summarised, bounded, inv, inlined, byContract;
  set<string> coversSeen, coversAll;
  map<string, set<unsigned>> lines;
  bool error = false;
  string errorMsg;
  long loopInv = 0;
};
static Report R;
static string g_repoRoot = "/repo";

static string locOf(const Instruction *I) {
  if (!I)
    return "?";
  if (auto &d = I->getDebugLoc()) {
    string f = d->getFilename().str();
    string dir = d->getDirectory().str();
    if (!f.empty() && f[0] != '/')
      f = dir + "/" + f;
    return f + ":" + std::to_string(d.getLine());
  }
  return I->getFunction()->getName().str();
}
static string fileOf(const Function *F) {
  if (auto *sp = F->getSubprogram()) {
    string f = sp->getFilename().str();
    if (!f.empty() && f[0] != '/')
      f = sp->getDirectory().str() + "/" + f;
    return f;
  }
  return "";
}
static string dem(const string &n) { return llvm::demangle(n); }

// ---------------------------------------------------------------- solver
static bool containsVar(const E &e, const E &k) {
  std::unordered_set<unsigned> seen;
  vector<E> w{e};
  unsigned kid = Z3_get_ast_id(C(), k);
  while (!w.empty()) {
    E x = w.back();
    w.pop_back();
    unsigned id = Z3_get_ast_id(C(), x);
    if (id == kid)
      return true;
    if (!seen.insert(id).second || !x.is_app())
      continue;
    for (unsigned i = 0; i < x.num_args(); ++i)
      w.push_back(x.arg(i));
  }
  return false;
}
static E subst(const E &e, const E &from, const E &to) {
  z3::expr_vector a(C()), b(C());
  a.push_back(from);
  b.push_back(to);
  E x = e;
  return x.substitute(a, b);
}

static bool linearIn(const E &arg, const E &k, unsigned &shift, E &c, bool &neg) {
  c = S(subst(arg, k, bv(0)));
  E d = S(subst(arg, k, bv(1)) - c);
  uint64_t v;
  if (!cst(d, v))
    return false;
  neg = false;
  if ((int64_t)v == -1) {
    neg = true;
    v = 1;
  }
  if (v == 0 || (v & (v - 1)))
    return false;
  shift = __builtin_ctzll(v);
  E lin = neg ? c - k : c + k * bv(v);
  return isT(S(arg == lin));
}

static void buildTrigs(Fact &f) {
  std::unordered_set<unsigned> seen;
  vector<E> w{f.body};
  set<string> done;
  auto addTerm = [&](const E &t) {
    E s = S(t);
    for (auto &x : f.terms)
      if (z3::eq(x, s))
        return;
    if (f.terms.size() < 24)
      f.terms.push_back(s);
  };
  f.terms.push_back(S(f.hi - bv(1)));
  f.terms.push_back(S(f.lo));
  while (!w.empty()) {
    E x = w.back();
    w.pop_back();
    if (!seen.insert(Z3_get_ast_id(C(), x)).second || !x.is_app())
      continue;
    auto dk = x.decl().decl_kind();
    if (dk == Z3_OP_UNINTERPRETED && x.num_args() == 1 && containsVar(x, f.k)) {
      unsigned sh;
      E c(C());
      bool neg;
      if (linearIn(x.arg(0), f.k, sh, c, neg)) {
        Fact::Trig t{(unsigned)Z3_get_ast_id(C(), x.decl()), sh, c, neg};
        bool dup = false;
        for (auto &o : f.trigs)
          if (o.fdecl == t.fdecl && o.shift == sh && o.neg == neg &&
              z3::eq(o.c, c))
            dup = true;
        if (!dup)
          f.trigs.push_back(t);
      }
    } else if (dk == Z3_OP_EQ && x.arg(0).is_bv() &&
               x.arg(0).get_sort().bv_size() == 64 && containsVar(x, f.k)) {
      // a - b == 0 as a linear form in k
      E d = S(x.arg(0) - x.arg(1));
      unsigned sh;
      E c(C());
      bool neg;
      if (linearIn(d, f.k, sh, c, neg)) {
        E k0 = neg ? c : z3::lshr(-c, bv(sh));
        addTerm(k0);
      }
    } else if ((dk == Z3_OP_ULEQ || dk == Z3_OP_ULT || dk == Z3_OP_UGEQ ||
                dk == Z3_OP_UGT) &&
               x.arg(0).get_sort().bv_size() == 64 && containsVar(x, f.k)) {
      for (int i = 0; i < 2; ++i) {
        E a = x.arg(i), b = x.arg(1 - i);
        if (containsVar(b, f.k))
          continue;
        unsigned sh;
        E c(C());
        bool neg;
        if (linearIn(a, f.k, sh, c, neg) && !neg && sh == 0) {
          addTerm(b - c);
          addTerm(b - c - bv(1));
        }
      }
    }
    for (unsigned i = 0; i < x.num_args(); ++i)
      w.push_back(x.arg(i));
  }
}

struct AppIndex {
  std::unordered_set<unsigned> seen;
  map<unsigned, vector<E>> apps; // UF decl -> args
  set<std::pair<unsigned, unsigned>> have;
  void scan(const E &root) {
    vector<E> w{root};
    while (!w.empty()) {
      E x = w.back();
      w.pop_back();
      if (!seen.insert(Z3_get_ast_id(C(), x)).second || !x.is_app())
        continue;
      if (x.num_args() == 1 &&
          x.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
        E a = x.arg(0);
        unsigned fd = Z3_get_ast_id(C(), x.decl());
        if (have.insert({fd, Z3_get_ast_id(C(), a)}).second)
          apps[fd].push_back(a);
      }
      for (unsigned i = 0; i < x.num_args(); ++i)
        w.push_back(x.arg(i));
    }
  }
};

static void instantiate(vector<E> &as, const vector<FactP> &facts, int rounds,
                        size_t cap) {
  if (facts.empty())
    return;
  AppIndex ix;
  size_t scanned = 0;
  set<std::pair<const Fact *, unsigned>> done;
  size_t total = 0;
  for (int r = 0; r < rounds; ++r) {
    for (; scanned < as.size(); ++scanned)
      ix.scan(as[scanned]);
    vector<E> add;
    for (auto &f : facts) {
      auto inst = [&](const E &t0) {
        if (total >= cap)
          return;
        E t = S(t0);
        if (!done.insert({f.get(), (unsigned)Z3_get_ast_id(C(), t)}).second)
          return;
        E g = S(f->guard && z3::ule(f->lo, t) && z3::ult(t, f->hi));
        if (isF(g))
          return;
        E b = S(z3::implies(g, subst(f->body, f->k, t)));
        if (isT(b))
          return;
        g_keep.push_back(t);
        add.push_back(b);
        ++total;
      };
      if (r == 0)
        for (auto &t : f->terms)
          inst(t);
      for (auto &tr : f->trigs) {
        auto it = ix.apps.find(tr.fdecl);
        if (it == ix.apps.end())
          continue;
        size_t n = it->second.size();
        for (size_t i = 0; i < n; ++i) {
          E e = it->second[i];
          E d = tr.neg ? tr.c - e : e - tr.c;
          if (tr.shift)
            d = z3::lshr(d, bv(tr.shift));
          inst(d);
        }
      }
    }
    if (add.empty())
      break;
    for (auto &a : add)
      as.push_back(a);
  }
}

static E quantified(const Fact &f) {
  E k = f.k;
  return z3::forall(k, z3::implies(f.guard && z3::ule(f.lo, k) &&
                                       z3::ult(k, f.hi),
                                   f.body));
}

struct QRes {
  z3::check_result r;
  shared_ptr<z3::model> m;
};
// Satisfiability of base plus the quantified facts.  The facts are
// instantiated lazily: only instances that the candidate model violates are
// added, first at ground terms of the query (linear triggers), then at the
// concrete indices of the model's own ranges.  unsat is exact; sat means the
// model satisfies every candidate instance.
static bool g_lazy = true;
static int g_iters, g_ncands;
static QRes checkEager(const vector<E> &base, const vector<FactP> &facts,
                       unsigned ms, int rounds, size_t cap) {
  vector<E> as = base;
  instantiate(as, facts, rounds, cap);
  z3::solver s(C());
  z3::params p(C());
  p.set("timeout", ms);
  s.set(p);
  for (auto &a : as)
    s.add(a);
  QRes q{z3::unknown, nullptr};
  try {
    q.r = s.check();
    if (q.r == z3::sat)
      q.m = std::make_shared<z3::model>(s.get_model());
  } catch (z3::exception &e) {
    q.r = z3::unknown;
  }
  return q;
}
static QRes checkLazy(const vector<E> &base, const vector<FactP> &facts,
                      unsigned ms, size_t cap, bool full) {
  z3::solver s(C(), z3::solver::simple());
  z3::params p(C());
  p.set("timeout", ms);
  s.set(p);
  AppIndex ix;
  for (auto &a : base) {
    s.add(a);
    ix.scan(a);
  }
  struct Cand {
    E body;
    bool added = false;
  };
  // candidates in order of discovery
  vector<Cand> cands;
  set<std::pair<const Fact *, unsigned>> done;
  map<std::pair<const Fact *, unsigned>, size_t> trigPos;
  auto addCand = [&](const FactP &f, const E &t0) -> bool {
    E t = S(t0);
    g_keep.push_back(t);
    if (!done.insert({f.get(), (unsigned)Z3_get_ast_id(C(), t)}).second)
      return false;
    E g = S(f->guard && z3::ule(f->lo, t) && z3::ult(t, f->hi));
    if (isF(g))
      return false;
    E b = S(z3::implies(g, subst(f->body, f->k, t)));
    if (isT(b))
      return false;
    cands.push_back(Cand{b});
    return true;
  };
  size_t pending = 0; // candidates before this index have been evaluated
  auto grow = [&] {
    for (auto &f : facts) {
      unsigned ti = 0;
      for (auto &tr : f->trigs) {
        auto it = ix.apps.find(tr.fdecl);
        size_t &from = trigPos[{f.get(), ti++}];
        if (it == ix.apps.end())
          continue;
        size_t n = it->second.size();
        for (; from < n && cands.size() < cap; ++from) {
          E e = it->second[from];
          E d = tr.neg ? tr.c - e : e - tr.c;
          if (tr.shift)
            d = z3::lshr(d, bv(tr.shift));
          addCand(f, d);
        }
      }
    }
  };
  for (auto &f : facts)
    for (auto &t : f->terms)
      addCand(f, t);
  grow();
  QRes q{z3::unknown, nullptr};
  double end = now() + ms / 1000.0;
  size_t concrete = 0;
  for (int iter = 0; iter < 200; ++iter) {
    g_iters = iter;
    g_ncands = cands.size();
    if (now() > end)
      return QRes{z3::unknown, nullptr};
    try {
      q.r = s.check();
    } catch (z3::exception &) {
      return QRes{z3::unknown, nullptr};
    }
    if (q.r != z3::sat)
      return q;
    z3::model m = s.get_model();
    q.m = std::make_shared<z3::model>(m);
    auto violated = [&](const E &b) {
      E v = m.eval(b, true);
      return !isT(v) && (isF(v) || isF(S(v)));
    };
    int added = 0;
    (void)pending;
    for (size_t i = 0; i < cands.size() && added < 12; ++i) {
      if (cands[i].added || !violated(cands[i].body))
        continue;
      cands[i].added = true;
      s.add(cands[i].body);
      ix.scan(cands[i].body);
      ++added;
    }
    if (added) {
      grow();
      continue;
    }
    if (!full)
      return q;
    // concrete indices of the model
    for (auto &f : facts) {
      if (concrete > 600)
        break;
      uint64_t lo, hi;
      if (!isT(m.eval(f->guard, true)))
        continue;
      if (!cst(S(m.eval(f->lo, true)), lo) || !cst(S(m.eval(f->hi, true)), hi))
        continue;
      if (lo >= hi)
        continue;
      int here = 0;
      auto tryK = [&](uint64_t k) {
        E b = subst(f->body, f->k, bv(k));
        if (!violated(b))
          return;
        E kk = bv(k);
        E g = S(f->guard && z3::ule(f->lo, kk) && z3::ult(kk, f->hi));
        E inst = S(z3::implies(g, S(b)));
        g_keep.push_back(inst);
        s.add(inst);
        ix.scan(inst);
        ++added;
        ++here;
        ++concrete;
      };
      uint64_t n = hi - lo;
      if (n <= 512)
        for (uint64_t k = lo; k < hi && here < 4; ++k)
          tryK(k);
      else {
        for (uint64_t k = 0; k < 64 && here < 3; ++k)
          tryK(lo + k);
        for (uint64_t k = 1; k <= 32 && here < 4; ++k)
          tryK(hi - k);
      }
    }
    if (!added)
      return q;
    grow();
  }
  return QRes{z3::unknown, nullptr};
}
// every object lies in the user address space: bounds for each object whose
// address occurs in a query
static unordered_map<unsigned, vector<int>> g_basesIn;
static map<int, E> g_objBounds;
static const vector<int> &basesIn(const E &root) {
  unsigned rid = Z3_get_ast_id(C(), root);
  auto f = g_basesIn.find(rid);
  if (f != g_basesIn.end())
    return f->second;
  g_keep.push_back(root);
  vector<int> out;
  set<unsigned> seen;
  vector<E> w{root};
  while (!w.empty()) {
    E e = w.back();
    w.pop_back();
    if (!e.is_app() || !seen.insert(Z3_get_ast_id(C(), e)).second)
      continue;
    if (e.num_args() == 0) {
      auto it = g_baseId.find(Z3_get_ast_id(C(), e));
      if (it != g_baseId.end())
        out.push_back(it->second);
      continue;
    }
    for (unsigned i = 0; i < e.num_args(); ++i)
      w.push_back(e.arg(i));
  }
  return g_basesIn[rid] = out;
}
static void addBounds(vector<E> &as) {
  set<int> ids;
  for (size_t i = 0; i < as.size(); ++i)
    for (int b : basesIn(as[i]))
      ids.insert(b);
  for (int i : ids)
    as.push_back(g_objBounds.at(i));
}
static QRes check(const vector<E> &base0, const vector<FactP> &facts,
                  unsigned ms, int rounds = 3, size_t cap = 400) {
  vector<E> base = base0;
  addBounds(base);
  if (now() > g_deadline)
    throw Budget{"time budget of this contract used up"};
  double t0 = now();
  QRes q = facts.empty() || !g_lazy ? checkEager(base, facts, ms, rounds, cap)
                                    : checkLazy(base, facts, ms, cap * 2, rounds > 3);
  ++R.queries;
  double dt = now() - t0;
  R.solverTime += dt;
  if (g_verbose > 2 && (dt > 3.0 || rounds > 3)) {
    if (q.m) fprintf(stderr, "MODEL%d/%d %s\n", rounds, (int)q.r, q.m->to_string().c_str());
    for (auto &a : base)
      fprintf(stderr, "PC %s\n", Z3_ast_to_string(C(), a));
    for (auto &f : facts)
      fprintf(stderr, "FACT k=%s guard=%s [%s..%s] %s\n",
              f->k.to_string().c_str(), f->guard.to_string().c_str(),
              f->lo.to_string().c_str(), f->hi.to_string().c_str(),
              f->body.to_string().c_str());
  }
  if (g_verbose > 1 && dt > 1.0)
    fprintf(stderr, "  [query %.2fs %d facts=%zu as=%zu iters=%d cands=%d]\n",
            dt, (int)q.r, facts.size(), base.size(), g_iters, g_ncands);
  return q;
}

// Case split: a query the solver gives up on is decided value by value over a
// variable that the path restricts to a few values.  Exact in both directions.
static int g_splits;
static vector<FactP> g_splitFacts;
static bool isBase(const E &e, int &id);
static QRes splitCheck(const vector<E> &base, const vector<FactP> &facts,
                       int depth, double end) {
  ++g_splits;
  if (depth > 0) {
    QRes q = check(base, facts, 3000, 6, 2500);
    if (q.r != z3::unknown)
      return q;
  }
  if (depth >= 4 || now() > end)
    return QRes{z3::unknown, nullptr};
  // candidate variables, those bounding the facts first
  map<unsigned, std::pair<int, E>> cands;
  auto collect = [&](const E &root, int weight) {
    std::unordered_set<unsigned> seen;
    vector<E> w{root};
    while (!w.empty()) {
      E e = w.back();
      w.pop_back();
      if (!e.is_app() || !seen.insert(Z3_get_ast_id(C(), e)).second)
        continue;
      if (e.num_args() == 0) {
        int id;
        if (e.is_bv() && e.get_sort().bv_size() == 64 &&
            e.decl().decl_kind() == Z3_OP_UNINTERPRETED && !isBase(e, id)) {
          auto it = cands.emplace(Z3_get_ast_id(C(), e), std::make_pair(0, e));
          it.first->second.first += weight;
        }
        continue;
      }
      for (unsigned i = 0; i < e.num_args(); ++i)
        w.push_back(e.arg(i));
    }
  };
  for (auto &b : base)
    collect(b, 1);
  for (auto &f : facts) {
    collect(f->lo, 4);
    collect(f->hi, 4);
  }
  vector<std::pair<int, E>> order;
  for (auto &c : cands)
    order.push_back(c.second);
  std::sort(order.begin(), order.end(),
            [](auto &a, auto &b) { return a.first > b.first; });
  E best(C());
  vector<uint64_t> bestVals;
  int looked = 0;
  for (auto &o : order) {
    if (++looked > 8 || now() > end)
      break;
    E v = o.second;
    // is it small at all?
    vector<E> as = base;
    addBounds(as);
    z3::solver sv(C(), z3::solver::simple());
    z3::params p(C());
    p.set("timeout", 1500u);
    sv.set(p);
    for (auto &a : as)
      sv.add(a);
    vector<uint64_t> vals;
    bool complete = false;
    try {
      sv.push();
      sv.add(z3::ugt(v, bv(64)));
      bool small = sv.check() == z3::unsat;
      sv.pop();
      while (small && vals.size() <= 66) {
        auto r = sv.check();
        if (r == z3::unsat) {
          complete = true;
          break;
        }
        if (r != z3::sat)
          break;
        uint64_t x;
        if (!cst(S(sv.get_model().eval(v, true)), x))
          break;
        vals.push_back(x);
        sv.add(v != bv(x));
      }
    } catch (z3::exception &) {
    }
    if (!complete)
      continue;
    if (vals.empty())
      return QRes{z3::unsat, nullptr};
    if (vals.size() == 1)
      continue;
    if (bestVals.empty() || vals.size() < bestVals.size()) {
      best = v;
      bestVals = vals;
    }
    if (bestVals.size() <= 8)
      break;
  }
  if (bestVals.empty())
    return QRes{z3::unknown, nullptr};
  for (uint64_t x : bestVals) {
    if (now() > end)
      return QRes{z3::unknown, nullptr};
    E c = bv(x);
    auto sub = [&](const E &e) {
      E r = S(subst(e, best, c));
      g_keep.push_back(r);
      return r;
    };
    vector<E> b2;
    bool dead = false;
    for (auto &e : base) {
      E r = sub(e);
      if (isF(r))
        dead = true;
      if (!isT(r))
        b2.push_back(r);
    }
    if (dead)
      continue;
    b2.push_back(best == c);
    g_keep.push_back(b2.back());
    vector<FactP> f2;
    for (auto &f : facts) {
      auto n = std::make_shared<Fact>();
      n->k = f->k;
      n->guard = sub(f->guard);
      n->lo = sub(f->lo);
      n->hi = sub(f->hi);
      n->body = sub(f->body);
      if (isF(n->guard))
        continue;
      buildTrigs(*n);
      g_splitFacts.push_back(n);
      f2.push_back(n);
    }
    QRes q = splitCheck(b2, f2, depth + 1, end);
    if (q.r != z3::unsat)
      return q;
  }
  return QRes{z3::unsat, nullptr};
}

// run an external solver on the query (with the quantified facts in full)
static int g_dump = 0;

static string runSolver(const string &cmd, const string &file, int secs) {
  string c = "timeout " + std::to_string(secs + 2) + " " + cmd + " " + file +
             " 2>/dev/null";
  FILE *p = popen(c.c_str(), "r");
  if (!p)
    return "unknown";
  char buf[256];
  string r = "unknown";
  while (fgets(buf, sizeof buf, p)) {
    string l = buf;
    if (l.rfind("unsat", 0) == 0)
      r = "unsat";
    else if (l.rfind("sat", 0) == 0)
      r = "sat";
  }
  pclose(p);
  return r;
}
static string dumpQuery(const vector<E> &base, const vector<FactP> &facts,
                        bool quant) {
  vector<E> as = base;
  addBounds(as);
  instantiate(as, facts, 3, 400);
  z3::solver s(C());
  for (auto &a : as)
    s.add(a);
  if (quant)
    for (auto &f : facts)
      s.add(quantified(*f));
  string fn = g_workdir + "/q" + std::to_string(getpid()) + "_" +
              std::to_string(g_dump++) + ".smt2";
  std::ofstream o(fn);
  o << "(set-logic ALL)\n" << s.to_smt2();
  return fn;
}
static string external(const vector<E> &base, const vector<FactP> &facts,
                       int secs, bool quant) {
  double t0 = now();
  string fn = dumpQuery(base, facts, quant);
  string r = runSolver("z3-new -T:" + std::to_string(secs), fn, secs);
  if (r == "unknown")
    r = runSolver("cvc5 --tlimit=" + std::to_string(secs * 1000), fn, secs);
  unlink(fn.c_str());
  R.solverTime += now() - t0;
  return r;
}

// three-valued truth of cond on the path
static bool inPc(const State &s, const E &c) {
  unsigned id = Z3_get_ast_id(C(), c);
  for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it)
    if (Z3_get_ast_id(C(), *it) == id)
      return true;
  return false;
}
static map<unsigned, shared_ptr<z3::model>> g_lastModel;
static int decide(State &s, const E &c0) {
  E c = S(c0);
  if (isT(c))
    return 1;
  if (isF(c))
    return 0;
  E n = S(!c);
  if (inPc(s, c))
    return 1;
  if (inPc(s, n))
    return 0;
  g_keep.push_back(c);
  g_keep.push_back(n);
  // a model of the path seen earlier settles one of the two questions
  int known = -1;
  if (s.lm && s.lmFacts == s.facts.size()) {
    bool ok = true;
    for (size_t i = s.lmPc; i < s.pc.size() && ok; ++i)
      ok = isT(s.lm->eval(s.pc[i], true));
    if (ok) {
      s.lmPc = s.pc.size();
      E v = s.lm->eval(c, true);
      known = isT(v) ? 1 : isF(v) ? 0 : -1;
    } else
      s.lm = nullptr;
  }
  auto remember = [&](const QRes &q) {
    if (q.r == z3::sat && q.m) {
      s.lm = q.m;
      s.lmPc = s.pc.size();
      s.lmFacts = s.facts.size();
    }
  };
  vector<E> as = s.pc;
  if (known != 1) {
    as.push_back(c);
    QRes a = check(as, s.facts, g_query_ms);
    if (a.r == z3::unsat)
      return 0;
    remember(a);
    as.pop_back();
  }
  if (known != 0) {
    as.push_back(n);
    QRes b = check(as, s.facts, g_query_ms);
    if (b.r == z3::unsat)
      return 1;
    remember(b);
  }
  return -1;
}
// is there an input that reaches this state (or is that undecided)
static bool feasible(State &s) {
  if (s.lm && s.lmFacts == s.facts.size()) {
    bool ok = true;
    for (size_t i = s.lmPc; i < s.pc.size() && ok; ++i)
      ok = isT(s.lm->eval(s.pc[i], true));
    if (ok) {
      s.lmPc = s.pc.size();
      return true;
    }
    s.lm = nullptr;
  }
  vector<E> as = s.pc;
  QRes q = check(as, s.facts, g_query_ms);
  if (q.r == z3::unsat)
    return false;
  if (q.r == z3::sat && q.m) {
    s.lm = q.m;
    s.lmPc = s.pc.size();
    s.lmFacts = s.facts.size();
  }
  return true;
}
static bool implied(State &s, const E &c0) { // cheap "valid on this path"
  E c = S(c0);
  if (isT(c))
    return true;
  if (isF(c))
    return false;
  if (inPc(s, c))
    return true;
  vector<E> as = s.pc;
  as.push_back(!c);
  return check(as, s.facts, g_query_ms).r == z3::unsat;
}
static void assume(State &s, const E &c0) {
  E c = S(c0);
  if (isT(c))
    return;
  if (isF(c))
    throw PathEnd{};
  if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) {
    for (unsigned i = 0; i < c.num_args(); ++i)
      assume(s, c.arg(i));
    return;
  }
  if (!inPc(s, c))
    s.pc.push_back(c);
}
static bool branch(State &s, const E &c0) {
  E c = S(c0);
  int d = decide(s, c);
  if (d >= 0) {
    return d;
  }
  throw ForkReq{c};
}
static void fact(State &s, const E &k, const E &guard, const E &lo,
                 const E &hi, const E &body) {
  if (s.pureDepth)
    throw Unsupported{"quantified fact inside a quantifier body"};
  auto f = std::make_shared<Fact>();
  f->k = k;
  f->guard = guard;
  f->lo = lo;
  f->hi = hi;
  f->body = S(body);
  buildTrigs(*f);
  s.facts.push_back(f);
}

// ---------------------------------------------------------------- obligations
static string callStackTop(State &s) {
  if (s.st.empty())
    return "?";
  auto &f = *s.st.back();
  return f.it == f.bb->end() ? "?" : locOf(&*f.it);
}
// innermost location inside the repository, else the innermost location
static string repoLoc(State &s) {
  for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) {
    auto &f = **it;
    const Instruction *I = f.it == f.bb->end() ? nullptr : &*f.it;
    if (!I)
      continue;
    string l = locOf(I);
    if (l.rfind(g_repoRoot + "/", 0) == 0)
      return l;
  }
  return callStackTop(s);
}
static string hexBytes(const vector<uint8_t> &b) {
  static const char *d = "0123456789abcdef";
  string o;
  for (auto x : b) {
    o += d[x >> 4];
    o += d[x & 15];
  }
  return o.empty() ? "-" : o;
}
static string replayOf(State &s, z3::model &m) {
  std::ostringstream o;
  for (auto &r : s.nd) {
    if (r.kind == 'N') {
      vector<uint8_t> b;
      E v = m.eval(r.val, true);
      for (unsigned i = 0; i < r.n; ++i) {
        uint64_t x = 0;
        S(ex(v, 8 * i + 7, 8 * i)).is_numeral_u64(x);
        b.push_back(x);
      }
      o << "N " << r.name << " " << hexBytes(b) << "\n";
    } else {
      uint64_t n = 0;
      m.eval(r.len, true).is_numeral_u64(n);
      o << r.kind << " " << r.name << " " << n << " ";
      vector<uint8_t> b;
      if (n <= (1u << 16))
        for (uint64_t i = 0; i < n; ++i) {
          uint64_t x = 0;
          m.eval(r.f(bv(i)), true).is_numeral_u64(x);
          if (r.kind == 'S' && x == 0)
            x = 'x';
          b.push_back(x);
        }
      o << hexBytes(b) << "\n";
    }
  }
  return o.str();
}

static void prove(State &s, const E &cond0, const string &kind,
                  const string &msg) {
  if (s.depthTrial) { // trial runs of loop bodies: assume only
    assume(s, cond0);
    return;
  }
  E cond = S(cond0);
  ++R.obligations;
  ++R.kinds[kind];
  if (isT(cond) || inPc(s, cond)) {
    ++R.trivial;
    ++R.discharged;
    return;
  }
  vector<E> as = s.pc;
  as.push_back(!cond);
  QRes q = check(as, s.facts, g_query_ms);
  if (q.r == z3::sat && !s.facts.empty())
    q = check(as, s.facts, g_query_ms, 6, 2500);
  if (q.r == z3::unknown)
    q = splitCheck(as, s.facts, 0, now() + g_split_secs);
  bool ok = q.r == z3::unsat;
  string verdict;
  if (ok) {
    ++R.smt;
    if (g_crosscheck) {
      string fn = dumpQuery(as, s.facts, false);
      string r = runSolver("cvc5 --tlimit=20000", fn, 20);
      unlink(fn.c_str());
      if (r == "unsat")
        ++R.cross;
      else if (r == "sat")
        ++R.crossDisagree;
    }
  } else if (q.r == z3::unknown || !s.facts.empty()) {
    string r = external(as, s.facts, g_ext_secs, true);
    if (r == "unsat") {
      ok = true;
      ++R.ext;
    } else if (q.r == z3::unknown && r == "unknown")
      verdict = "undecided";
  }
  if (ok) {
    ++R.discharged;
    assume(s, cond);
    return;
  }
  Failure f;
  f.kind = kind;
  f.msg = msg;
  f.loc = repoLoc(s);
  f.hadFacts = !s.facts.empty();
  f.verdict = verdict.empty() ? "refuted" : verdict;
  for (auto it = s.st.rbegin(); it != s.st.rend(); ++it)
    f.stack.push_back(
        dem((*it)->F->getName().str()) + " at " +
        ((*it)->it == (*it)->bb->end() ? string("?") : locOf(&*(*it)->it)));
  if (q.r == z3::sat) {
    // prefer a small counterexample
    for (uint64_t lim : {3ull, 10ull, 40ull, 300ull, 70000ull}) {
      vector<E> as2 = as;
      for (auto &r : s.nd)
        if (r.kind != 'N')
          as2.push_back(z3::ule(r.len, bv(lim)));
      QRes q2 = check(as2, s.facts, g_query_ms, 6, 2500);
      if (q2.r == z3::sat) {
        q = q2;
        break;
      }
    }
    f.replay = replayOf(s, *q.m);
  }
  // keep one failure per (kind,msg,loc) plus a few alternative inputs
  int same = 0;
  for (auto &o : R.fails)
    if (o.kind == f.kind && o.msg == f.msg && o.loc == f.loc)
      ++same;
  if (same < 3)
    R.fails.push_back(f);
  if (f.verdict == "refuted" && !f.replay.empty())
    g_deadline = std::min(g_deadline, now() + g_after_fail);
  if (isF(cond))
    throw PathEnd{};
  if (decide(s, cond) == 0)
    throw PathEnd{};
  assume(s, cond);
}
[[noreturn]] static void failHere(State &s, const string &kind,
                                  const string &msg) {
  prove(s, Fa(), kind, msg);
  throw PathEnd{};
}
// ---------------------------------------------------------------- objects
static OP newObj(const string &name, Obj::Kind k, const E &size) {
  auto o = std::make_shared<Obj>();
  o->id = g_objCtr++;
  o->name = name;
  o->kind = k;
  o->size = S(size);
  o->base = C().bv_const(("@" + std::to_string(o->id) + ":" + name).c_str(), 64);
  g_baseId[Z3_get_ast_id(C(), o->base)] = o->id;
  g_keep.push_back(o->base);
  g_keep.push_back(o->size);
  g_objBounds.emplace(o->id, z3::uge(o->base, bv(4096)) &&
                                 z3::ule(o->base, bv(1ull << 47)) &&
                                 z3::ule(o->size, bv(1ull << 47)));
  return o;
}
static OP allocObj(State &s, const string &name, Obj::Kind k, const E &size) {
  OP o = newObj(name, k, size);
  o->chain = mkBase("mem" + std::to_string(o->id));
  o->garbage = true;
  s.objs[o->id] = o;
  return o;
}
static Obj &wr(State &s, int id) { // writable copy
  OP &p = s.objs.at(id);
  if (p.use_count() > 1)
    p = std::make_shared<Obj>(*p);
  return *p;
}

static void initBytes(Obj &o, uint64_t off, const Constant *c);
static void setData(Obj &o, uint64_t off, const vector<uint8_t> &d);
static E constE(State *s, const Constant *c);
static Val constVal(State *s, const Constant *c);

static int globalObj(const GlobalValue *g) {
  auto it = g_gobj.find(g);
  if (it != g_gobj.end())
    return it->second;
  if (auto *al = dyn_cast<GlobalAlias>(g)) {
    auto *b = al->getAliaseeObject();
    int id = globalObj(b);
    g_gobj[g] = id;
    return id;
  }
  if (auto *F = dyn_cast<Function>(g)) {
    OP o = newObj("fn:" + F->getName().str(), Obj::Func, bv(1));
    o->chain = mkZero();
    o->readonly = true;
    g_gobj[g] = o->id;
    g_funcOf[o->id] = const_cast<Function *>(F);
    g_ginit[o->id] = o;
    return o->id;
  }
  auto *gv = cast<GlobalVariable>(g);
  uint64_t sz = 1 << 12;
  if (gv->getValueType()->isSized())
    sz = DL->getTypeAllocSize(gv->getValueType());
  bool ext = !gv->hasInitializer();
  if (ext && sz < 4096)
    sz = 4096;
  OP o = newObj(gv->getName().str(), Obj::Global, bv(sz));
  g_gobj[g] = o->id;
  g_ginit[o->id] = o;
  o->readonly = gv->isConstant();
  o->why = "constant global";
  if (ext && gv->getName().starts_with("_ZTI")) {
    // a type_info of another library: { vptr, name }
    string n = gv->getName().substr(4).str();
    OP t = newObj("_ZTS" + n, Obj::Global, bv(n.size() + 1));
    g_ginit[t->id] = t;
    t->readonly = true;
    t->why = "constant global";
    t->chain = mkZero();
    setData(*t, 0, vector<uint8_t>(n.c_str(), n.c_str() + n.size() + 1));
    o->chain = mkBase("ext_" + gv->getName().str());
    o->cells.insert_or_assign(8, Cell{8, S(t->base)});
  } else if (ext)
    o->chain = mkBase("ext_" + gv->getName().str());
  else {
    o->chain = mkZero();
    initBytes(*o, 0, gv->getInitializer());
  }
  return o->id;
}
static E globalBase(State *s, const GlobalValue *g) {
  int id = globalObj(g);
  return g_ginit.at(id)->base;
}

static unsigned sizeOfTy(Type *t) { return DL->getTypeStoreSize(t); }
static unsigned bitsOfTy(Type *t) {
  if (t->isPointerTy())
    return 64;
  if (t->isFloatTy())
    return 32;
  if (t->isDoubleTy())
    return 64;
  if (t->isIntegerTy())
    return t->getIntegerBitWidth();
  string n;
  raw_string_ostream os(n);
  t->print(os);
  throw Unsupported{"type " + n};
}

static void setData(Obj &o, uint64_t off, const vector<uint8_t> &d) {
  auto m = std::make_shared<MNode>();
  m->k = MNode::Data;
  m->prev = o.chain;
  m->off = bv(off);
  m->data = d;
  o.chain = m;
}
static void initBytes(Obj &o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) ||
      isa<UndefValue>(c))
    return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = ds->getRawDataValues();
    setData(o, off, vector<uint8_t>(r.begin(), r.end()));
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        initBytes(o, off + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        initBytes(o, off + i * es, ca->getOperand(i));
    }
    return;
  }
  unsigned n = sizeOfTy(t);
  E e = constE(nullptr, c);
  if (e.is_bool())
    e = b2bv(e, 8);
  if (e.get_sort().bv_size() < n * 8)
    e = z3::zext(e, n * 8 - e.get_sort().bv_size());
  o.cells.insert_or_assign(off, Cell{n, S(e)});
}

static E constE(State *s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w == 1)
      return C().bool_val(ci->isOne());
    if (w <= 64)
      return bv(ci->getZExtValue(), w);
    SmallString<64> str;
    ci->getValue().toStringUnsigned(str);
    return C().bv_val(str.c_str(), w);
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() > 64)
      throw Unsupported{"long double constant"};
    return bv(a.getZExtValue(), a.getBitWidth());
  }
  if (isa<ConstantPointerNull>(c))
    return bv(0);
  if (isa<UndefValue>(c)) {
    if (c->getType()->isIntegerTy(1))
      return freshBool("undef");
    return freshBV("undef", bitsOfTy(c->getType()));
  }
  if (auto *g = dyn_cast<GlobalValue>(c))
    return globalBase(s, g);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
        throw Unsupported{"constant gep"};
      return S(constE(s, ce->getOperand(0)) + bv(off.getZExtValue()));
    }
    case Instruction::BitCast:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast:
      return constE(s, ce->getOperand(0));
    case Instruction::Trunc: {
      E e = constE(s, ce->getOperand(0));
      return S(ex(e, bitsOfTy(ce->getType()) - 1, 0));
    }
    case Instruction::Sub:
      return S(constE(s, ce->getOperand(0)) - constE(s, ce->getOperand(1)));
    case Instruction::Add:
      return S(constE(s, ce->getOperand(0)) + constE(s, ce->getOperand(1)));
    default:
      throw Unsupported{"constant expression"};
    }
  }
  if (isa<ConstantAggregateZero>(c))
    return bv(0, bitsOfTy(c->getType()));
  throw Unsupported{"constant"};
}
static Val constVal(State *s, const Constant *c) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements()
                                 : t->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i)
      v.agg->push_back(constVal(s, c->getAggregateElement(i)));
    return v;
  }
  return Val(constE(s, c));
}

// ---------------------------------------------------------------- reads
static E byteOf(const E &v, unsigned i) { return ex(v, 8 * i + 7, 8 * i); }

static E rdChain(State &s, MP m, E off, unsigned n,
                 map<std::tuple<MNode *, unsigned, unsigned>, E> &memo);
static E rdBytes(State &s, MP m, const E &off, unsigned n,
                 map<std::tuple<MNode *, unsigned, unsigned>, E> &memo) {
  E r = rdChain(s, m, S(off), 1, memo);
  for (unsigned i = 1; i < n; ++i)
    r = z3::concat(rdChain(s, m, S(off + bv(i)), 1, memo), r);
  return S(r);
}
// is the low part of e (bits < log2 sz) zero, structurally
static bool alignedTo(const E &e, unsigned sz) {
  if (sz == 1)
    return true;
  if (sz & (sz - 1))
    return false;
  unsigned b = __builtin_ctz(sz);
  E lo = S(ex(e, b - 1, 0));
  uint64_t v;
  return cst(lo, v) && v == 0;
}
static E rdChain(State &s, MP m, E off, unsigned n,
                 map<std::tuple<MNode *, unsigned, unsigned>, E> &memo) {
  auto key = std::make_tuple(m.get(), (unsigned)Z3_get_ast_id(C(), off), n);
  auto it = memo.find(key);
  if (it != memo.end())
    return it->second;
  g_keep.push_back(off);
  E res(C());
  switch (m->k) {
  case MNode::Base: {
    if (m->zero) {
      res = bv(0, 8 * n);
      break;
    }
    res = m->f(off);
    for (unsigned i = 1; i < n; ++i)
      res = z3::concat(m->f(S(off + bv(i))), res);
    break;
  }
  case MNode::Data: {
    E rel = S(off - m->off);
    uint64_t v, len = m->data.size();
    if (cst(rel, v)) {
      if (v < len && v + n <= len) {
        vector<uint8_t> b(m->data.begin() + v, m->data.begin() + v + n);
        E r = bv(b[0], 8);
        for (unsigned i = 1; i < n; ++i)
          r = z3::concat(bv(b[i], 8), r);
        res = r;
      } else if ((v >= len && (int64_t)v > 0) ||
                 ((int64_t)v < 0 && (int64_t)v + (int64_t)n <= 0))
        res = rdChain(s, m->prev, off, n, memo);
      else
        res = rdBytes(s, m, off, n, memo);
      break;
    }
    if (n > 1) {
      res = rdBytes(s, m, off, n, memo);
      break;
    }
    if (len > 4096)
      throw Unsupported{"symbolic index into a large constant table"};
    E r = rdChain(s, m->prev, off, 1, memo);
    // group equal bytes to keep the term small
    for (uint64_t i = 0; i < len; ++i)
      r = z3::ite(rel == bv(i), bv(m->data[i], 8), r);
    res = r;
    break;
  }
  case MNode::Store: {
    E rel = S(off - m->off);
    uint64_t v;
    if (cst(rel, v)) {
      int64_t d = (int64_t)v;
      if (d == 0 && n == m->sz)
        res = m->val;
      else if (d >= (int64_t)m->sz || d + (int64_t)n <= 0)
        res = rdChain(s, m->prev, off, n, memo);
      else if (d >= 0 && d + n <= m->sz)
        res = S(ex(m->val, 8 * (d + n) - 1, 8 * d));
      else
        res = rdBytes(s, m, off, n, memo);
      break;
    }
    if (n == m->sz && (n == 1 || alignedTo(rel, n))) {
      E p = rdChain(s, m->prev, off, n, memo);
      res = z3::ite(rel == bv(0), m->val, p);
      break;
    }
    if (n > 1) {
      // whole access inside or outside?
      E out = z3::uge(rel, bv(m->sz)) && z3::ule(rel, bv(0) - bv(n));
      if (implied(s, out))
        res = rdChain(s, m->prev, off, n, memo);
      else
        res = rdBytes(s, m, off, n, memo);
      break;
    }
    {
      E p = rdChain(s, m->prev, off, 1, memo);
      E b = byteOf(m->val, m->sz - 1);
      for (int i = (int)m->sz - 2; i >= 0; --i)
        b = z3::ite(rel == bv(i), byteOf(m->val, i), b);
      res = z3::ite(z3::ult(rel, bv(m->sz)), b, p);
    }
    break;
  }
  case MNode::Fill:
  case MNode::Copy:
  case MNode::Lambda: {
    E rel = S(off - m->off);
    E total = m->k == MNode::Lambda ? S(m->len * bv(m->es)) : m->len;
    E in(C()), out(C());
    if (n == 1) {
      in = S(z3::ult(rel, total));
      out = S(!in);
    } else {
      in = S(z3::ult(rel, total) && z3::uge(total, bv(n)) &&
             z3::ule(rel, total - bv(n)));
      out = S(z3::uge(rel, total) && z3::ule(rel, bv(0) - bv(n)));
    }
    auto inside = [&]() -> E {
      if (m->k == MNode::Fill) {
        E r = m->val;
        for (unsigned i = 1; i < n; ++i)
          r = z3::concat(m->val, r);
        return r;
      }
      if (m->k == MNode::Copy)
        return rdChain(s, m->src, S(m->soff + rel), n, memo);
      // Lambda
      if (m->es == 1) {
        return S(subst(m->val, m->var, rel));
      }
      unsigned sh = __builtin_ctzll(m->es);
      E idx = S(z3::lshr(rel, bv(sh)));
      E v = subst(m->val, m->var, idx);
      if (n == m->es && alignedTo(rel, n))
        return S(v);
      if (n == m->es && implied(s, ex(rel, sh - 1, 0) == bv(0, sh)))
        return S(v);
      if (n == 1) {
        E b = byteOf(v, m->es - 1);
        E lo = z3::zext(ex(rel, sh - 1, 0), 64 - sh);
        for (int i = (int)m->es - 2; i >= 0; --i)
          b = z3::ite(lo == bv(i), byteOf(v, i), b);
        return S(b);
      }
      return rdBytes(s, m, off, n, memo);
    };
    if (isT(in))
      res = inside();
    else if (isT(out))
      res = rdChain(s, m->prev, off, n, memo);
    else {
      // decide on the path where possible: keeps terms small
      if (n > 1) {
        if (implied(s, in))
          res = inside();
        else if (implied(s, out))
          res = rdChain(s, m->prev, off, n, memo);
        else if (m->k == MNode::Lambda && n == m->es && alignedTo(rel, n)) {
          res = z3::ite(z3::ult(rel, total), inside(),
                        rdChain(s, m->prev, off, n, memo));
        } else
          res = rdBytes(s, m, off, n, memo);
      } else {
        E a = inside();
        E p = rdChain(s, m->prev, off, 1, memo);
        res = z3::ite(in, a, p);
      }
    }
    break;
  }
  }
  res = S(res);
  memo.insert({key, res});
  return res;
}

static void flushCells(Obj &o, bool all = true, uint64_t lo = 0,
                       uint64_t hi = ~0ull) {
  for (auto it = o.cells.begin(); it != o.cells.end();) {
    uint64_t a = it->first, b = a + it->second.sz;
    if (all || (a < hi && lo < b)) {
      auto m = std::make_shared<MNode>();
      m->k = MNode::Store;
      m->prev = o.chain;
      m->off = bv(a);
      m->sz = it->second.sz;
      m->val = it->second.v;
      o.chain = m;
      it = o.cells.erase(it);
    } else
      ++it;
  }
}
// NB flushing keeps the meaning: cells override the chain

static E readObj(State &s, int id, E off, unsigned n) {
  off = S(off);
  uint64_t v;
  map<std::tuple<MNode *, unsigned, unsigned>, E> memo;
  OP o = s.objs.at(id);
  if (cst(off, v)) {
    auto it = o->cells.find(v);
    if (it != o->cells.end() && it->second.sz == n)
      return it->second.v;
    // overlapping cells?
    bool ov = false;
    it = o->cells.lower_bound(v);
    if (it != o->cells.begin()) {
      auto p = std::prev(it);
      if (p->first + p->second.sz > v)
        ov = true;
    }
    if (it != o->cells.end() && it->first < v + n)
      ov = true;
    if (!ov)
      return rdChain(s, o->chain, off, n, memo);
    // assemble
    E r(C());
    bool first = true;
    for (uint64_t i = v; i < v + n;) {
      // find cell covering i
      auto c = o->cells.upper_bound(i);
      E part(C());
      unsigned len = 0;
      bool got = false;
      if (c != o->cells.begin()) {
        auto p = std::prev(c);
        if (p->first + p->second.sz > i) {
          unsigned lo = i - p->first;
          len = std::min<uint64_t>(p->second.sz - lo, v + n - i);
          part = ex(p->second.v, 8 * (lo + len) - 1, 8 * lo);
          got = true;
        }
      }
      if (!got) {
        uint64_t e = v + n;
        if (c != o->cells.end() && c->first < e)
          e = c->first;
        len = e - i;
        part = rdChain(s, o->chain, bv(i), len, memo);
      }
      r = first ? part : z3::concat(part, r);
      first = false;
      i += len;
    }
    return S(r);
  }
  if (!o->cells.empty()) {
    Obj &w = wr(s, id);
    flushCells(w);
    o = s.objs.at(id);
  }
  return rdChain(s, o->chain, off, n, memo);
}

static void logWrite(State &s, int id, const E &off, unsigned n, const E &v) {
  if (!s.logW)
    return;
  State::W w;
  w.obj = id;
  w.off = off;
  w.n = n;
  w.val = v;
  s.wlog.push_back(w);
}
// drop what the cells say about [v, v+n)
static void trimCells(Obj &o, uint64_t v, uint64_t n) {
  auto it = o.cells.lower_bound(v);
  if (it != o.cells.begin())
    --it;
  vector<std::pair<uint64_t, Cell>> add;
  while (it != o.cells.end() && it->first < v + n) {
    uint64_t a = it->first, b = a + it->second.sz;
    if (b <= v) {
      ++it;
      continue;
    }
    Cell c = it->second;
    it = o.cells.erase(it);
    if (a < v)
      add.push_back({a, Cell{(unsigned)(v - a), S(ex(c.v, 8 * (v - a) - 1, 0))}});
    if (b > v + n)
      add.push_back({v + n, Cell{(unsigned)(b - v - n),
                                 S(ex(c.v, 8 * c.sz - 1, 8 * (v + n - a)))}});
  }
  for (auto &p : add)
    o.cells.insert_or_assign(p.first, p.second);
}
static void writeObj(State &s, int id, E off, unsigned n, E val) {
  off = S(off);
  val = S(val);
  logWrite(s, id, off, n, val);
  Obj &o = wr(s, id);
  uint64_t v;
  if (cst(off, v)) {
    trimCells(o, v, n);
    o.cells.insert_or_assign(v, Cell{n, val});
    return;
  }
  flushCells(o);
  auto m = std::make_shared<MNode>();
  m->k = MNode::Store;
  m->prev = o.chain;
  m->off = off;
  m->sz = n;
  m->val = val;
  o.chain = m;
}

// ---------------------------------------------------------------- pointers
static bool isBase(const E &e, int &id) {
  if (!e.is_const() || e.decl().decl_kind() != Z3_OP_UNINTERPRETED)
    return false;
  auto it = g_baseId.find(Z3_get_ast_id(C(), e));
  if (it == g_baseId.end())
    return false;
  id = it->second;
  return true;
}
static map<unsigned, bool> g_hasBase;
static bool hasBase(const E &e) {
  unsigned id = Z3_get_ast_id(C(), e);
  auto it = g_hasBase.find(id);
  if (it != g_hasBase.end())
    return it->second;
  bool r = false;
  int d;
  if (isBase(e, d))
    r = true;
  else if (e.is_app())
    for (unsigned i = 0; i < e.num_args() && !r; ++i)
      r = hasBase(e.arg(i));
  g_keep.push_back(e);
  g_hasBase[id] = r;
  return r;
}
// addr = base(id) + off, structurally
static bool splitPtr0(const E &a, int &id, E &off);
static bool splitPtr(const E &a, int &id, E &off) {
  struct Split {
    E a, off;
    int id;
    bool ok;
  };
  static std::unordered_map<unsigned, Split> memo;
  unsigned k = Z3_get_ast_id(C(), a);
  auto it = memo.find(k);
  if (it == memo.end()) {
    if (memo.size() > 60000)
      memo.clear();
    Split n{a, off, id, false};
    n.ok = splitPtr0(a, n.id, n.off);
    it = memo.emplace(k, n).first;
  }
  if (it->second.ok) {
    id = it->second.id;
    off = it->second.off;
  }
  return it->second.ok;
}
static bool splitPtr0(const E &a, int &id, E &off) {
  if (isBase(a, id)) {
    off = bv(0);
    return true;
  }
  if (a.is_app() && a.decl().decl_kind() == Z3_OP_BADD) {
    int n = 0, cur;
    for (unsigned i = 0; i < a.num_args(); ++i)
      if (isBase(a.arg(i), cur)) {
        ++n;
        id = cur;
      } else if (hasBase(a.arg(i)))
        return false;
    if (n == 1) {
      E r = bv(0);
      for (unsigned i = 0; i < a.num_args(); ++i) {
        int z;
        if (!isBase(a.arg(i), z))
          r = r + a.arg(i);
      }
      off = S(r);
      return true;
    }
  }
  return false;
}
static bool findIte(const E &e, E &out, std::unordered_set<unsigned> &seen) {
  if (!seen.insert(Z3_get_ast_id(C(), e)).second)
    return false;
  if (!e.is_app())
    return false;
  if (e.is_ite() && hasBase(e)) {
    out = e;
    return true;
  }
  for (unsigned i = 0; i < e.num_args(); ++i)
    if (findIte(e.arg(i), out, seen))
      return true;
  return false;
}
struct Ref {
  int id;
  E off;
  bool null = false, raw = false;
  E addr;
  Ref() : off(C()), addr(C()) {}
};
static void needGlobal(State &s, int id) {
  if (!s.objs.count(id)) {
    auto it = g_ginit.find(id);
    if (it == g_ginit.end()) {
      return;
    }
    s.objs[id] = it->second;
  }
}
// Resolve an address; may request a fork.
static Ref resolve(State &s, E a) {
  Ref r;
  a = S(a);
  for (int guard = 0; guard < 200; ++guard) {
    r.addr = a;
    if (splitPtr(a, r.id, r.off)) {
      needGlobal(s, r.id);
      return r;
    }
    uint64_t v;
    if (cst(a, v)) {
      r.null = v == 0;
      r.raw = v != 0;
      return r;
    }
    E ite(C());
    std::unordered_set<unsigned> seen;
    if (a.is_ite())
      ite = a;
    else if (!findIte(a, ite, seen)) {
      // raw symbolic address: null or unknown
      int d = decide(s, a == bv(0));
      if (d == 1) {
        r.null = true;
        return r;
      }
      if (d == -1)
        throw ForkReq{S(a == bv(0))};
      r.raw = true;
      return r;
    }
    E c = ite.arg(0);
    bool t = branch(s, c);
    z3::expr_vector from(C()), to(C());
    from.push_back(ite);
    to.push_back(ite.arg(t ? 1 : 2));
    a = S(a.substitute(from, to));
  }
  throw Unsupported{"pointer too complex"};
}

static void checkAccess(State &s, const Ref &r, const E &n, bool write,
                        const string &what) {
  if (r.null)
    failHere(s, "memory", what + " through a null pointer");
  if (r.raw)
    failHere(s, "memory", what + " through an invalid pointer");
  auto it = s.objs.find(r.id);
  if (it == s.objs.end())
    failHere(s, "memory", what + " of an object whose lifetime has ended");
  Obj &o = *it->second;
  if (!o.alive)
    failHere(s, "memory", what + " of freed or dead object '" + o.name + "'");
  if (o.kind == Obj::Func)
    failHere(s, "memory", what + " of a function");
  uint64_t nv, sv, ov;
  if (cst(n, nv) && cst(o.size, sv) && cst(r.off, ov) && nv <= sv && ov <= sv - nv) {
    if (!s.depthTrial) {
      static const string memory = "memory";
      ++R.obligations;
      ++R.kinds[memory];
      ++R.trivial;
      ++R.discharged;
    }
  } else
    prove(s, z3::ule(n, o.size) && z3::ule(r.off, o.size - n), "memory",
          what + " within the bounds of object '" + o.name + "'");
  if (write && it->second->readonly)
    failHere(s, "frame", what + " to '" + o.name + "' (" + o.why +
                             "), which must not be modified");
}
static E toMem(const E &e, unsigned n) {
  E x = e;
  if (x.is_bool())
    x = b2bv(x, 8 * n);
  unsigned w = x.get_sort().bv_size();
  if (w < 8 * n)
    x = z3::zext(x, 8 * n - w);
  return S(x);
}
static Val fromMem(const E &e, Type *t) {
  if (t->isIntegerTy(1))
    return Val(S(ex(e, 0, 0) == bv(1, 1)));
  unsigned b = bitsOfTy(t);
  if (b < e.get_sort().bv_size())
    return Val(S(ex(e, b - 1, 0)));
  return Val(e);
}
static Val loadTy(State &s, int id, const E &off, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      v.agg->push_back(loadTy(s, id, S(off + bv((uint64_t)sl->getElementOffset(i))),
                              st->getElementType(i)));
    return v;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i)
      v.agg->push_back(loadTy(s, id, S(off + bv(i * es)), at->getElementType()));
    return v;
  }
  return fromMem(readObj(s, id, off, sizeOfTy(t)), t);
}
static void storeTy(State &s, int id, const E &off, Type *t, const Val &v) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      storeTy(s, id, S(off + bv((uint64_t)sl->getElementOffset(i))),
              st->getElementType(i), (*v.agg)[i]);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i)
      storeTy(s, id, S(off + bv(i * es)), at->getElementType(), (*v.agg)[i]);
    return;
  }
  unsigned n = sizeOfTy(t);
  writeObj(s, id, off, n, toMem(v.e, n));
}

// range operations
static void copyRange(State &s, int did, E doff, int sid, E soff, E n) {
  n = S(n);
  doff = S(doff);
  soff = S(soff);
  uint64_t nv, dv, sv;
  if (cst(n, nv) && nv == 0)
    return;
  if (cst(n, nv) && cst(doff, dv) && cst(soff, sv) && nv <= 512) {
    // unit-wise copy, keeping typed cells
    OP so = s.objs.at(sid);
    vector<std::pair<uint64_t, Cell>> parts;
    vector<std::pair<uint64_t, uint64_t>> gaps;
    map<std::tuple<MNode *, unsigned, unsigned>, E> memo;
    for (uint64_t i = sv; i < sv + nv;) {
      auto c = so->cells.upper_bound(i);
      bool done = false;
      if (c != so->cells.begin()) {
        auto p = std::prev(c);
        if (p->first + p->second.sz > i) {
          unsigned lo = i - p->first;
          unsigned len = std::min<uint64_t>(p->second.sz - lo, sv + nv - i);
          E v = (lo == 0 && len == p->second.sz)
                    ? p->second.v
                    : S(ex(p->second.v, 8 * (lo + len) - 1, 8 * lo));
          parts.push_back({i - sv, Cell{len, v}});
          i += len;
          done = true;
        }
      }
      if (!done) {
        uint64_t e = sv + nv;
        if (c != so->cells.end() && c->first < e)
          e = c->first;
        if (e - i >= 24 && !s.logW) { // a stretch without typed content
          gaps.push_back({i, e - i});
          i = e;
          continue;
        }
        // find natural unit: 8 aligned else 1
        unsigned len = (i % 8 == 0 && e - i >= 8) ? 8 : 1;
        parts.push_back(
            {i - sv, Cell{len, rdChain(s, so->chain, bv(i), len, memo)}});
        i += len;
      }
    }
    for (auto &g : gaps) {
      Obj &d = wr(s, did);
      uint64_t at = dv + (g.first - sv);
      trimCells(d, at, g.second);
      auto m = std::make_shared<MNode>();
      m->k = MNode::Copy;
      m->prev = d.chain;
      m->off = bv(at);
      m->len = bv(g.second);
      m->src = so->chain;
      m->soff = bv(g.first);
      d.chain = m;
    }
    for (auto &p : parts)
      writeObj(s, did, bv(dv + p.first), p.second.sz, p.second.v);
    return;
  }
  if (s.logW)
    s.logBad = true;
  {
    Obj &w = wr(s, sid);
    flushCells(w);
  }
  MP src = s.objs.at(sid)->chain;
  Obj &d = wr(s, did);
  flushCells(d);
  auto m = std::make_shared<MNode>();
  m->k = MNode::Copy;
  m->prev = d.chain;
  m->off = doff;
  m->len = n;
  m->src = src;
  m->soff = soff;
  d.chain = m;
}
static void fillRange(State &s, int did, E doff, E byte, E n) {
  n = S(n);
  doff = S(doff);
  uint64_t nv, dv;
  if (cst(n, nv) && nv == 0)
    return;
  if (cst(n, nv) && cst(doff, dv) && nv >= 32 && !s.logW) {
    Obj &d = wr(s, did);
    trimCells(d, dv, nv);
    auto m = std::make_shared<MNode>();
    m->k = MNode::Fill;
    m->prev = d.chain;
    m->off = doff;
    m->len = n;
    m->val = byte;
    d.chain = m;
    return;
  }
  if (cst(n, nv) && cst(doff, dv) && nv <= 512) {
    uint64_t i = 0;
    while (i < nv) {
      unsigned len = ((dv + i) % 8 == 0 && nv - i >= 8) ? 8 : 1;
      E v = byte;
      for (unsigned k = 1; k < len; ++k)
        v = z3::concat(byte, v);
      writeObj(s, did, bv(dv + i), len, S(v));
      i += len;
    }
    return;
  }
  if (s.logW)
    s.logBad = true;
  Obj &d = wr(s, did);
  flushCells(d);
  auto m = std::make_shared<MNode>();
  m->k = MNode::Fill;
  m->prev = d.chain;
  m->off = doff;
  m->len = n;
  m->val = byte;
  d.chain = m;
}
// ---------------------------------------------------------------- exceptions
static const map<string, string> kStdBase = {
    {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"},
    {"_ZTISt13bad_exception", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
    {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};

struct BaseInfo {
  string name;
  int64_t off;
  bool virt;
  bool pub;
};
static vector<BaseInfo> basesOf(const string &ti) {
  vector<BaseInfo> r;
  auto it = kStdBase.find(ti);
  if (it != kStdBase.end()) {
    r.push_back({it->second, 0, false, true});
    return r;
  }
  auto *gv = M->getGlobalVariable(ti, true);
  if (!gv || !gv->hasInitializer())
    return r;
  auto *cs = dyn_cast<ConstantStruct>(gv->getInitializer());
  if (!cs)
    return r;
  if (cs->getNumOperands() == 3) {
    r.push_back({cs->getOperand(2)->stripPointerCasts()->getName().str(), 0,
                 false, true});
  } else if (cs->getNumOperands() > 4) {
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
      auto *n = cs->getOperand(i)->stripPointerCasts();
      int64_t of = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
      r.push_back({n->getName().str(), of >> 8, (of & 1) != 0, (of & 2) != 0});
    }
  }
  return r;
}
static bool isSubtype(const string &d, const string &b) {
  if (d == b)
    return true;
  for (auto &x : basesOf(d))
    if (isSubtype(x.name, b))
      return true;
  return false;
}
static map<string, int> g_tiId;
static int tiId(const string &n) {
  auto it = g_tiId.find(n);
  if (it != g_tiId.end())
    return it->second;
  int v = g_tiId.size() + 1;
  return g_tiId[n] = v;
}

// ---------------------------------------------------------------- interpreter
static Val &slot(Frame &f, const Value *v) {
  auto &ix = idxOf(f.F);
  return f.slots[ix.find(v)->second];
}
static Frame &top(State &s) {
  FP &p = s.st.back();
  if (p.use_count() > 1)
    p = std::make_shared<Frame>(*p);
  return *p;
}
static Val get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v))
    return constVal(&s, c);
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v))
    return Val();
  Frame &f = *s.st.back();
  auto &ix = idxOf(f.F);
  return f.slots[ix.find(v)->second];
}
static E getE(State &s, const Value *v) { return get(s, v).e; }

static void setRes(State &s, const Instruction *I, const Val &v) {
  if (!I->getType()->isVoidTy())
    slot(top(s), I) = v;
}
static void advance(State &s) {
  Frame &f = top(s);
  ++f.it;
}
static void jump(State &s, BasicBlock *to) {
  Frame &f = top(s);
  f.prev = f.bb;
  f.bb = to;
  f.it = to->begin();
  f.stopHere = true; // "just entered"
}
static void finishCall(State &s, CallBase *cb, const Val &v) {
  setRes(s, cb, v);
  if (auto *iv = dyn_cast<InvokeInst>(cb))
    jump(s, iv->getNormalDest());
  else
    advance(s);
}
static void popFrame(State &s) {
  Frame &f = *s.st.back();
  for (int a : f.allocas)
    s.objs.erase(a);
  s.st.pop_back();
}
static void startUnwind(State &s, const E &ptr, const string &type, int obj) {
  s.unwinding = true;
  s.cur.ptr = ptr;
  s.cur.type = type;
  s.cur.obj = obj;
  s.cur.dtor = nullptr;
  s.cur.rethrown = false;
}
static void throwStd(State &s, const string &ti) {
  OP o = allocObj(s, "exception " + dem(ti), Obj::Exc, bv(16));
  startUnwind(s, o->base, ti, o->id);
}
// one unwinding step: the top frame sits at a call/invoke
static void unwindStep(State &s) {
  Frame &f = top(s);
  Instruction *I = &*f.it;
  if (auto *iv = dyn_cast<InvokeInst>(I)) {
    auto *lp = iv->getUnwindDest()->getLandingPadInst();
    int sel = 0;
    bool hit = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
      if (lp->isCatch(i)) {
        auto *c = lp->getClause(i)->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) {
          sel = tiId("...");
          hit = true;
          break;
        }
        string n = c->getName().str();
        if (isSubtype(s.cur.type, n)) {
          sel = tiId(n);
          hit = true;
          break;
        }
      } else {
        // filter: treat a non-matching exception specification as terminate
        hit = true;
        sel = -1;
        break;
      }
    }
    if (hit) {
      Val v;
      v.agg = std::make_shared<vector<Val>>();
      v.agg->push_back(Val(s.cur.ptr));
      v.agg->push_back(Val(bv((uint64_t)(int64_t)sel & 0xffffffff, 32)));
      jump(s, iv->getUnwindDest());
      slot(top(s), lp) = v;
      s.unwinding = false;
      return;
    }
  }
  popFrame(s);
}

static void explore(std::deque<State> &work, vector<State> &done, size_t depth,
                    const std::function<bool(State &)> &stop);

static E execPure(State &s, Function *F, const vector<Val> &args, const E &lo,
                  const E &hi, const E &k) {
  State sub = s;
  sub.st.clear();
  sub.pureDepth++;
  sub.logW = false;
  E g = S(z3::ule(lo, k) && z3::ult(k, hi));
  if (isF(g))
    return T();
  assume(sub, g);
  size_t n0 = sub.pc.size();
  auto f = std::make_shared<Frame>();
  f->F = F;
  f->bb = &F->getEntryBlock();
  f->it = f->bb->begin();
  f->slots.resize(idxOf(F).size());
  unsigned i = 0;
  for (auto &a : F->args())
    f->slots[idxOf(F)[&a]] = args[i++];
  sub.st.push_back(f);
  std::deque<State> w;
  w.push_back(std::move(sub));
  vector<State> done;
  explore(w, done, 0, nullptr);
  if (done.empty())
    return T();
  E acc(C());
  bool first = true;
  for (auto &d : done) {
    if (d.unwinding)
      throw Unsupported{"exception inside a quantifier body"};
    E r = d.ret.e;
    if (!r.is_bool())
      r = S(ex(r, 0, 0) == bv(1, 1));
    if (first) {
      acc = r;
      first = false;
      continue;
    }
    E c = T();
    for (size_t j = n0; j < d.pc.size(); ++j)
      c = mkAnd(c, d.pc[j]);
    acc = z3::ite(c, r, acc);
  }
  return S(acc);
}

static string cstrConst(State &s, const E &p) {
  Ref r = resolve(s, p);
  string o;
  uint64_t v = cval(r.off);
  OP ob = s.objs.at(r.id);
  static map<std::pair<MP, uint64_t>, string> memo;
  auto key = std::make_pair(ob->chain, v);
  if (ob->cells.empty()) {
    auto it = memo.find(key);
    if (it != memo.end())
      return it->second;
  }
  for (int i = 0; i < 200; ++i) {
    uint64_t b;
    if (!cst(readObj(s, r.id, bv(v + i), 1), b) || !b)
      break;
    o += (char)b;
  }
  if (ob->cells.empty())
    memo[key] = o;
  return o;
}
static string ndName(string n) {
  for (auto &c : n)
    if (c == ' ')
      c = '_';
  return n.empty() ? "v" : n;
}

// first index r<=n with pred at r, or n: definitional
static E firstIndex(State &s, const E &n, const string &nm,
                    const std::function<E(const E &)> &pred) {
  uint64_t nv;
  if (cst(n, nv) && nv <= 12) {
    E r = bv(nv);
    for (int i = (int)nv - 1; i >= 0; --i)
      r = z3::ite(pred(bv(i)), bv(i), r);
    return S(r);
  }
  // concrete contents: the position is a number
  const bool fixed = cst(n, nv);
  for (uint64_t i = 0; i < 2000; ++i) {
    if (fixed ? i >= nv : !isT(S(z3::ult(bv(i), n)))) {
      if (fixed && nv == i)
        return bv(i);
      break;
    }
    E p = S(pred(bv(i)));
    if (isT(p))
      return bv(i);
    if (!isF(p))
      break;
  }
  if (s.pureDepth)
    throw Unsupported{"search over an unbounded range inside a quantifier"};
  E r = freshBV(nm, 64);
  assume(s, z3::ule(r, n));
  E k = freshBV("k", 64);
  E p = pred(k);
  fact(s, k, T(), bv(0), r, !p);
  E at = pred(r);
  assume(s, z3::implies(z3::ult(r, n), at));
  return r;
}
static E rd1(State &s, int id, const E &off) { return readObj(s, id, off, 1); }

static E spanOf(State &s, const Ref &r) {
  return S(s.objs.at(r.id)->size - r.off);
}
static void mustBeObject(State &s, const Ref &r, const string &what) {
  checkAccess(s, r, bv(0), false, what);
}

static bool doBuiltin(State &s, CallBase *cb, const string &name, Val &out,
                      bool &unwound);

static void pushCall(State &s, CallBase *cb, Function *F,
                     const vector<Val> &args) {
  if (s.st.size() > 250)
    throw Unsupported{"recursion too deep in " + dem(F->getName().str())};
  auto f = std::make_shared<Frame>();
  f->F = F;
  f->bb = &F->getEntryBlock();
  f->it = f->bb->begin();
  f->site = cb;
  auto &ix = idxOf(F);
  f->slots.resize(ix.size());
  unsigned i = 0;
  for (auto &a : F->args()) {
    Val v = i < args.size() ? args[i] : Val(bv(0));
    if (a.hasByValAttr()) {
      // by-value aggregate: the callee owns a copy
      Type *t = a.getParamByValType();
      uint64_t n = DL->getTypeAllocSize(t);
      Ref r = resolve(s, v.e);
      checkAccess(s, r, bv(n), false, "read of by-value argument");
      OP o = allocObj(s, "byval", Obj::Stack, bv(n));
      f->allocas.push_back(o->id);
      copyRange(s, o->id, bv(0), r.id, r.off, bv(n));
      v = Val(o->base);
    }
    f->slots[ix[&a]] = v;
    ++i;
  }
  for (; i < args.size(); ++i)
    f->varargs.push_back(args[i]);
  s.st.push_back(f);
  string file = fileOf(F);
  if (file.rfind(g_repoRoot + "/", 0) == 0)
    R.repoFns.insert(dem(F->getName().str()));
}

static map<unsigned, E> g_fpOf; // bv id -> fp expr
static E toFP(const E &b) {
  auto it = g_fpOf.find(Z3_get_ast_id(C(), b));
  if (it != g_fpOf.end())
    return it->second;
  unsigned w = b.get_sort().bv_size();
  z3::sort so = w == 32 ? C().fpa_sort<32>() : C().fpa_sort<64>();
  return E(C(), Z3_mk_fpa_to_fp_bv(C(), b, so));
}
static E fromFP(State &s, const E &f) {
  unsigned w = f.get_sort().fpa_ebits() == 8 ? 32 : 64;
  // introduce a name: bits b with to_fp(b) == f (NaN payload free)
  if (f.is_app() && f.decl().decl_kind() == Z3_OP_FPA_TO_FP &&
      f.num_args() == 1 && f.arg(0).is_bv())
    return f.arg(0);
  E b = freshBV("fp", w);
  z3::sort so = f.get_sort();
  E tf(C(), Z3_mk_fpa_to_fp_bv(C(), b, so));
  s.pc.push_back(E(C(), Z3_mk_eq(C(), tf, f)));
  g_fpOf.insert({(unsigned)Z3_get_ast_id(C(), b), f});
  g_keep.push_back(b);
  g_keep.push_back(f);
  return b;
}
static E rne() { return E(C(), Z3_mk_fpa_rne(C())); }
static E rtz() { return E(C(), Z3_mk_fpa_rtz(C())); }

static E ptrEq(State &s, const E &a, const E &b) {
  if (a.is_ite() && hasBase(a))
    return S(z3::ite(a.arg(0), ptrEq(s, a.arg(1), b), ptrEq(s, a.arg(2), b)));
  if (b.is_ite() && hasBase(b))
    return S(z3::ite(b.arg(0), ptrEq(s, a, b.arg(1)), ptrEq(s, a, b.arg(2))));
  int ia, ib;
  E oa(C()), ob(C());
  bool pa = splitPtr(a, ia, oa), pb = splitPtr(b, ib, ob);
  if (pa && pb) {
    if (ia == ib)
      return S(oa == ob);
    return Fa();
  }
  uint64_t v;
  if (pa && cst(b, v) && v < 4096)
    return Fa();
  if (pb && cst(a, v) && v < 4096)
    return Fa();
  return S(a == b);
}
static void baseAxioms(State &s, int id) {
  auto it = s.objs.find(id);
  E base(C()), size(C());
  if (it != s.objs.end()) {
    base = it->second->base;
    size = it->second->size;
  } else
    return;
  assume(s, z3::uge(base, bv(4096)) && z3::ule(base, bv(1ull << 62)) &&
                z3::ule(size, bv(1ull << 60)));
}
static E ptrUlt(State &s, const E &a, const E &b, bool orEq) {
  int ia, ib;
  E oa(C()), ob(C());
  bool pa = splitPtr(a, ia, oa), pb = splitPtr(b, ib, ob);
  if (pa && pb && ia == ib)
    return S(orEq ? z3::ule(oa, ob) : z3::ult(oa, ob));
  if (pa && pb) {
    needGlobal(s, ia);
    needGlobal(s, ib);
    baseAxioms(s, ia);
    baseAxioms(s, ib);
    if (s.objs.count(ia) && s.objs.count(ib)) {
      auto &x = *s.objs[ia], &y = *s.objs[ib];
      assume(s, z3::ult(x.base + x.size, y.base) ||
                    z3::ult(y.base + y.size, x.base));
    }
  }
  return S(orEq ? z3::ule(a, b) : z3::ult(a, b));
}

static Val binop(State &s, BinaryOperator *I) {
  E a = getE(s, I->getOperand(0)), b = getE(s, I->getOperand(1));
  unsigned op = I->getOpcode();
  if (a.is_bool()) {
    switch (op) {
    case Instruction::And:
      return S(a && b);
    case Instruction::Or:
      return S(a || b);
    case Instruction::Xor:
    case Instruction::Add:
    case Instruction::Sub:
      return S(a != b);
    default:
      throw Unsupported{"i1 arithmetic"};
    }
  }
  if (I->getType()->isFloatingPointTy()) {
    E x = toFP(a), y = toFP(b);
    Z3_ast r;
    switch (op) {
    case Instruction::FAdd:
      r = Z3_mk_fpa_add(C(), rne(), x, y);
      break;
    case Instruction::FSub:
      r = Z3_mk_fpa_sub(C(), rne(), x, y);
      break;
    case Instruction::FMul:
      r = Z3_mk_fpa_mul(C(), rne(), x, y);
      break;
    case Instruction::FDiv:
      r = Z3_mk_fpa_div(C(), rne(), x, y);
      break;
    default:
      throw Unsupported{"frem"};
    }
    return Val(fromFP(s, E(C(), r)));
  }
  unsigned w = a.get_sort().bv_size();
  auto ovf = [&](const char *w2, const E &ok) {
    prove(s, ok, "arithmetic", string("no signed overflow in ") + w2);
  };
  auto B = [&](Z3_ast x) { return E(C(), x); };
  switch (op) {
  case Instruction::Add:
    if (I->hasNoSignedWrap())
      ovf("addition", B(Z3_mk_bvadd_no_overflow(C(), a, b, true)) &&
                          B(Z3_mk_bvadd_no_underflow(C(), a, b)));
    return S(a + b);
  case Instruction::Sub:
    if (I->hasNoSignedWrap())
      ovf("subtraction", B(Z3_mk_bvsub_no_overflow(C(), a, b)) &&
                             B(Z3_mk_bvsub_no_underflow(C(), a, b, true)));
    return S(a - b);
  case Instruction::Mul:
    if (I->hasNoSignedWrap())
      ovf("multiplication", B(Z3_mk_bvmul_no_overflow(C(), a, b, true)) &&
                                B(Z3_mk_bvmul_no_underflow(C(), a, b)));
    return S(a * b);
  case Instruction::UDiv:
  case Instruction::URem:
    prove(s, b != bv(0, w), "arithmetic", "divisor is not zero");
    return S(op == Instruction::UDiv ? z3::udiv(a, b) : z3::urem(a, b));
  case Instruction::SDiv:
  case Instruction::SRem: {
    prove(s, b != bv(0, w), "arithmetic", "divisor is not zero");
    prove(s, !(a == bv(1ull << (w - 1), w) && b == bv(~0ull, w)), "arithmetic",
          "no signed overflow in division");
    uint64_t v;
    if (op == Instruction::SDiv && cast<PossiblyExactOperator>(I)->isExact() &&
        cst(b, v) && v && !(v & (v - 1)))
      return S(z3::ashr(a, bv(__builtin_ctzll(v), w)));
    return S(op == Instruction::SDiv ? a / b : z3::srem(a, b));
  }
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
    prove(s, z3::ult(b, bv(w, w)), "arithmetic", "shift amount in range");
    return S(op == Instruction::Shl ? z3::shl(a, b)
             : op == Instruction::LShr ? z3::lshr(a, b)
                                       : z3::ashr(a, b));
  case Instruction::And: {
    // member function pointers tell virtual ones by the lowest bit: the
    // address of a function is even
    uint64_t mask, o;
    int id;
    E off(C());
    if (cst(b, mask) && mask == 1 && a.get_sort().bv_size() == 64 && hasBase(a) &&
        splitPtr(a, id, off) && g_funcOf.count(id) && cst(off, o))
      return bv(o & 1);
    return S(a & b);
  }
  case Instruction::Or:
    return S(a | b);
  case Instruction::Xor:
    return S(a ^ b);
  }
  throw Unsupported{"binop"};
}
static E toB8(const E &e) { return e; }

static Val icmp(State &s, ICmpInst *I) {
  E a = getE(s, I->getOperand(0)), b = getE(s, I->getOperand(1));
  auto p = I->getPredicate();
  if (I->getOperand(0)->getType()->isPointerTy()) {
    switch (p) {
    case ICmpInst::ICMP_EQ:
      return ptrEq(s, a, b);
    case ICmpInst::ICMP_NE:
      return S(!ptrEq(s, a, b));
    case ICmpInst::ICMP_ULT:
      return ptrUlt(s, a, b, false);
    case ICmpInst::ICMP_ULE:
      return ptrUlt(s, a, b, true);
    case ICmpInst::ICMP_UGT:
      return ptrUlt(s, b, a, false);
    case ICmpInst::ICMP_UGE:
      return ptrUlt(s, b, a, true);
    default:
      throw Unsupported{"pointer compare"};
    }
  }
  if (a.is_bv() && a.get_sort().bv_size() == 64) {
    // addresses compared as integers (std::less on pointers)
    int ia, ib;
    E oa(C()), ob(C());
    if (hasBase(a) && hasBase(b) && splitPtr(a, ia, oa) && splitPtr(b, ib, ob))
      switch (p) {
      case ICmpInst::ICMP_ULT:
        return ptrUlt(s, a, b, false);
      case ICmpInst::ICMP_ULE:
        return ptrUlt(s, a, b, true);
      case ICmpInst::ICMP_UGT:
        return ptrUlt(s, b, a, false);
      case ICmpInst::ICMP_UGE:
        return ptrUlt(s, b, a, true);
      default:
        break;
      }
  }
  if (a.is_bool()) {
    if (p == ICmpInst::ICMP_EQ)
      return S(a == b);
    if (p == ICmpInst::ICMP_NE)
      return S(a != b);
    a = b2bv(a, 1);
    b = b2bv(b, 1);
  }
  switch (p) {
  case ICmpInst::ICMP_EQ:
    return S(a == b);
  case ICmpInst::ICMP_NE:
    return S(a != b);
  case ICmpInst::ICMP_ULT:
    return S(z3::ult(a, b));
  case ICmpInst::ICMP_ULE:
    return S(z3::ule(a, b));
  case ICmpInst::ICMP_UGT:
    return S(z3::ugt(a, b));
  case ICmpInst::ICMP_UGE:
    return S(z3::uge(a, b));
  case ICmpInst::ICMP_SLT:
    return S(a < b);
  case ICmpInst::ICMP_SLE:
    return S(a <= b);
  case ICmpInst::ICMP_SGT:
    return S(a > b);
  case ICmpInst::ICMP_SGE:
    return S(a >= b);
  default:
    throw Unsupported{"icmp"};
  }
}
static Val fcmp(State &s, FCmpInst *I) {
  E x = toFP(getE(s, I->getOperand(0))), y = toFP(getE(s, I->getOperand(1)));
  auto A = [&](Z3_ast a) { return E(C(), a); };
  E nan = A(Z3_mk_fpa_is_nan(C(), x)) || A(Z3_mk_fpa_is_nan(C(), y));
  E lt = A(Z3_mk_fpa_lt(C(), x, y)), gt = A(Z3_mk_fpa_gt(C(), x, y)),
    eq = A(Z3_mk_fpa_eq(C(), x, y));
  E le = A(Z3_mk_fpa_leq(C(), x, y)), ge = A(Z3_mk_fpa_geq(C(), x, y));
  switch (I->getPredicate()) {
  case FCmpInst::FCMP_OEQ:
    return S(eq);
  case FCmpInst::FCMP_OGT:
    return S(gt);
  case FCmpInst::FCMP_OGE:
    return S(ge);
  case FCmpInst::FCMP_OLT:
    return S(lt);
  case FCmpInst::FCMP_OLE:
    return S(le);
  case FCmpInst::FCMP_ONE:
    return S(!eq && !nan);
  case FCmpInst::FCMP_ORD:
    return S(!nan);
  case FCmpInst::FCMP_UNO:
    return S(nan);
  case FCmpInst::FCMP_UEQ:
    return S(eq || nan);
  case FCmpInst::FCMP_UGT:
    return S(!le);
  case FCmpInst::FCMP_UGE:
    return S(!lt);
  case FCmpInst::FCMP_ULT:
    return S(!ge);
  case FCmpInst::FCMP_ULE:
    return S(!gt);
  case FCmpInst::FCMP_UNE:
    return S(!eq);
  default:
    throw Unsupported{"fcmp"};
  }
}
static Val castop(State &s, CastInst *I) {
  Type *dt = I->getDestTy(), *st = I->getSrcTy();
  E a = getE(s, I->getOperand(0));
  auto FSort = [&](Type *t) -> z3::sort {
    if (t->isFloatTy())
      return C().fpa_sort<32>();
    if (t->isDoubleTy())
      return C().fpa_sort<64>();
    throw Unsupported{"long double"};
  };
  switch (I->getOpcode()) {
  case Instruction::ZExt:
    if (a.is_bool())
      return S(b2bv(a, bitsOfTy(dt)));
    return S(z3::zext(a, bitsOfTy(dt) - bitsOfTy(st)));
  case Instruction::SExt:
    if (a.is_bool())
      return S(z3::ite(a, bv(~0ull, bitsOfTy(dt)), bv(0, bitsOfTy(dt))));
    return S(z3::sext(a, bitsOfTy(dt) - bitsOfTy(st)));
  case Instruction::Trunc:
    if (dt->isIntegerTy(1))
      return S(ex(a, 0, 0) == bv(1, 1));
    return S(ex(a, bitsOfTy(dt) - 1, 0));
  case Instruction::PtrToInt: {
    unsigned w = bitsOfTy(dt);
    if (w < 64)
      return S(ex(a, w - 1, 0));
    return a;
  }
  case Instruction::IntToPtr:
  case Instruction::BitCast:
  case Instruction::AddrSpaceCast: {
    unsigned w = a.get_sort().bv_size();
    if (w < 64 && dt->isPointerTy())
      return S(z3::zext(a, 64 - w));
    return a;
  }
  case Instruction::SIToFP:
    if (a.is_bool())
      a = z3::ite(a, bv(~0ull, 8), bv(0, 8));
    return fromFP(s, E(C(), Z3_mk_fpa_to_fp_signed(C(), rne(), a, FSort(dt))));
  case Instruction::UIToFP:
    if (a.is_bool())
      a = b2bv(a, 8);
    return fromFP(s,
                  E(C(), Z3_mk_fpa_to_fp_unsigned(C(), rne(), a, FSort(dt))));
  case Instruction::FPTrunc:
  case Instruction::FPExt:
    return fromFP(s, E(C(), Z3_mk_fpa_to_fp_float(C(), rne(), toFP(a), FSort(dt))));
  case Instruction::FPToSI:
  case Instruction::FPToUI: {
    bool sg = I->getOpcode() == Instruction::FPToSI;
    unsigned w = bitsOfTy(dt);
    E f = toFP(a);
    // in range?  truncated value representable
    E t(C(), Z3_mk_fpa_round_to_integral(C(), rtz(), f));
    double lo = sg ? -std::ldexp(1.0, w - 1) : 0.0;
    double hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
    auto num = [&](double d) {
      return E(C(), Z3_mk_fpa_numeral_double(C(), d, f.get_sort()));
    };
    E ok = E(C(), Z3_mk_fpa_geq(C(), t, num(lo))) &&
           E(C(), Z3_mk_fpa_lt(C(), t, num(hi)));
    prove(s, ok, "arithmetic",
          "floating-point value fits the integer type it is converted to");
    return S(E(C(), sg ? Z3_mk_fpa_to_sbv(C(), rtz(), f, w)
                       : Z3_mk_fpa_to_ubv(C(), rtz(), f, w)));
  }
  default:
    throw Unsupported{"cast"};
  }
}
static E gep(State &s, GetElementPtrInst *I) {
  E p = getE(s, I->getPointerOperand());
  uint64_t c = 0, v;
  bool sym = false;
  for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
    if (auto *st = gi.getStructTypeOrNull()) {
      unsigned i = cast<ConstantInt>(gi.getOperand())->getZExtValue();
      c += DL->getStructLayout(st)->getElementOffset(i);
    } else {
      uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) {
        c += (uint64_t)ci->getSExtValue() * es;
        continue;
      }
      E i = getE(s, gi.getOperand());
      unsigned w = i.get_sort().bv_size();
      if (cst(i, v)) {
        c += (w < 64 ? (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)) : v) * es;
        continue;
      }
      if (w < 64)
        i = z3::sext(i, 64 - w);
      p = p + i * bv(es);
      sym = true;
    }
  }
  if (sym)
    return S(p + bv(c));
  if (!c)
    return S(p);
  if (p.is_app() && p.num_args() == 0 && !p.is_numeral())
    return bv(c) + p;
  if (p.is_app() && p.num_args() == 2 && p.decl().decl_kind() == Z3_OP_BADD && cst(p.arg(0), v)) {
    E rest = p.arg(1);
    if (rest.is_app() && rest.num_args() == 0)
      return v + c ? bv(v + c) + rest : rest;
  }
  return S(p + bv(c));
}
static double ldexp_(double a, int b) { return std::ldexp(a, b); }
// ---------------------------------------------------------------- loops
static bool onlyOld(const E &e, unsigned startCtr) {
  std::unordered_set<unsigned> seen;
  vector<E> w{e};
  while (!w.empty()) {
    E x = w.back();
    w.pop_back();
    if (!seen.insert(Z3_get_ast_id(C(), x)).second || !x.is_app())
      continue;
    if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
      string n = x.decl().name().str();
      auto p = n.rfind('!');
      if (p != string::npos) {
        unsigned v = strtoul(n.c_str() + p + 1, nullptr, 10);
        if (v >= startCtr)
          return false;
      }
    }
    for (unsigned i = 0; i < x.num_args(); ++i)
      w.push_back(x.arg(i));
  }
  return true;
}

struct LoopSummary {
  struct Phi {
    PHINode *p = nullptr; // or memory location
    int obj = 0;
    uint64_t off = 0;
    unsigned n = 0;
    E init, step, x;
    bool affine = false, isBool = false;
    Phi() : init(C()), step(C()), x(C()) {}
  };
  struct Stream {
    int obj;
    E o0, val; // val in terms of k
    int64_t stride;
    unsigned n;
    Stream() : o0(C()), val(C()) {}
  };
  vector<Phi> phis;
  vector<Stream> streams;
  set<int> havocObjs;
  vector<E> cont; // over k
  E k;
  LoopSummary() : k(C()) {}
};

struct SumFail {
  string why;
};

static void enterIteration(State &t, const LoopSummary &ls, size_t d,
                           const std::function<Val(const LoopSummary::Phi &)> &v) {
  Frame &f = top(t);
  for (auto &p : ls.phis) {
    Val x = v(p);
    if (p.p)
      slot(f, p.p) = x;
    else
      writeObj(t, p.obj, bv(p.off), p.n, x.e);
  }
  f.it = f.bb->getFirstNonPHI()->getIterator();
  f.stopHere = false;
}

static void applyStreams(State &g, const LoopSummary &ls, const E &k) {
  for (int o : ls.havocObjs) {
    Obj &w = wr(g, o);
    w.cells.clear();
    w.chain = mkBase("loop" + std::to_string(o));
  }
  for (auto &st : ls.streams) {
    Obj &w = wr(g, st.obj);
    flushCells(w);
    auto m = std::make_shared<MNode>();
    m->k = MNode::Lambda;
    m->prev = w.chain;
    m->es = st.n;
    m->len = k;
    m->var = freshBV("j", 64);
    if (st.stride > 0) {
      m->off = st.o0;
      m->val = subst(st.val, ls.k, m->var);
    } else {
      m->off = S(st.o0 - bv(st.n) * (k - bv(1)));
      m->val = subst(st.val, ls.k, S(k - bv(1) - m->var));
    }
    w.chain = m;
  }
}

static bool runIteration(State t, BasicBlock *H, Loop *L, size_t d,
                         vector<State> &back, vector<State> &exits) {
  std::deque<State> w;
  w.push_back(std::move(t));
  vector<State> done;
  explore(w, done, d - 1, [&](State &s) {
    if (s.st.size() < d)
      return true;
    if (s.st.size() > d)
      return false;
    Frame &f = *s.st.back();
    if (!f.stopHere)
      return false;
    if (f.bb == H && f.prev && L->contains(f.prev))
      return true;
    return !L->contains(f.bb);
  });
  for (auto &s : done) {
    if (s.st.size() == d && !s.unwinding && s.st.back()->bb == H &&
        s.st.back()->stopHere && L->contains(s.st.back()->prev))
      back.push_back(s);
    else
      exits.push_back(s);
  }
  return true;
}

static E phiNext(State &b, const LoopSummary::Phi &p) {
  if (p.p) {
    return getE(b, p.p->getIncomingValueForBlock(b.st.back()->prev));
  }
  return readObj(b, p.obj, bv(p.off), p.n);
}

static vector<State> summariseLoop(State &s0, BasicBlock *H, Loop *L) {
  size_t d = s0.st.size();
  if (s0.pureDepth)
    throw SumFail{"inside a quantifier body"};
  State s = s0;
  LoopSummary ls;
  Frame &f0 = top(s);
  for (auto &ph : H->phis()) {
    LoopSummary::Phi p;
    p.p = &ph;
    Val v = get(s, ph.getIncomingValueForBlock(f0.prev));
    if (v.isAgg())
      throw SumFail{"aggregate phi"};
    p.init = v.e;
    p.isBool = v.e.is_bool();
    ls.phis.push_back(p);
  }
  ls.k = freshBV("k", 64);
  unsigned start = g_fresh;
  auto havocVal = [&](LoopSummary::Phi &p) -> E {
    if (p.isBool)
      return freshBool("x");
    E x = freshBV("x", p.init.get_sort().bv_size());
    p.x = x;
    if (hasBase(p.init))
      return S(p.init + x);
    return x;
  };
  vector<State> back, exits;
  // trial 1 and 2: discover memory locations written at fixed offsets
  for (int round = 0; round < 3; ++round) {
    back.clear();
    exits.clear();
    State t = s;
    t.depthTrial++;
    t.logW = false;
    enterIteration(t, ls, d, [&](const LoopSummary::Phi &p) {
      auto &q = const_cast<LoopSummary::Phi &>(p);
      E v = havocVal(q);
      if (q.isBool || !hasBase(q.init))
        q.x = v;
      return Val(v);
    });
    t.logW = true;
    t.wlog.clear();
    runIteration(t, H, L, d, back, exits);
    if (back.empty())
      throw SumFail{"no back edge"};
    bool added = false;
    for (auto &b : back) {
      if (b.logBad)
        throw SumFail{"block copy in loop"};
      for (auto &w : b.wlog) {
        if (!s.objs.count(w.obj))
          continue;
        uint64_t o;
        if (!cst(w.off, o))
          continue;
        bool have = false;
        for (auto &p : ls.phis)
          if (!p.p && p.obj == w.obj && p.off == o && p.n == w.n)
            have = true;
        if (have)
          continue;
        LoopSummary::Phi p;
        p.obj = w.obj;
        p.off = o;
        p.n = w.n;
        p.init = readObj(s, w.obj, w.off, w.n);
        ls.phis.push_back(p);
        added = true;
      }
    }
    if (!added)
      break;
  }
  // steps
  for (auto &p : ls.phis) {
    p.affine = false;
    bool first = true, ok = true;
    E step(C());
    for (auto &b : back) {
      E n = phiNext(b, p);
      if (p.isBool) {
        ok = ok && z3::eq(S(n), S(p.x));
        step = Fa();
        continue;
      }
      E cur = hasBase(p.init) ? S(p.init + p.x) : p.x;
      E dlt = S(n - cur);
      bool inv = onlyOld(dlt, start);
      if (!inv)
        ok = false;
      else if (first)
        step = dlt;
      else if (!z3::eq(step, dlt))
        ok = false;
      first = false;
    }
    if (ok) {
      p.affine = true;
      p.step = step;
    }
  }
  auto closed = [&](const LoopSummary::Phi &p, const E &k) -> E {
    if (p.isBool)
      return p.init;
    unsigned w = p.init.get_sort().bv_size();
    E kk = w == 64 ? k : (w < 64 ? ex(k, w - 1, 0) : z3::zext(k, w - 64));
    return S(p.init + p.step * kk);
  };
  auto toK = [&](const E &e0, bool &ok) -> E {
    E e = e0;
    for (auto &p : ls.phis)
      if (p.affine) {
        if (p.isBool) {
          e = subst(e, p.x, p.init);
        } else if (hasBase(p.init)) {
          e = subst(e, p.x, S(closed(p, ls.k) - p.init));
        } else
          e = subst(e, p.x, closed(p, ls.k));
      }
    e = S(e);
    ok = onlyOld(e, start);
    return e;
  };
  // memory streams
  for (auto &b : back) {
    vector<LoopSummary::Stream> sts;
    set<int> hv;
    for (auto &w : b.wlog) {
      uint64_t o;
      if (cst(w.off, o) || !s.objs.count(w.obj))
        continue;
      bool ok1, ok2;
      E of = toK(w.off, ok1), va = toK(w.val, ok2);
      E o0 = S(subst(of, ls.k, bv(0)));
      E st = S(subst(of, ls.k, bv(1)) - o0);
      uint64_t sv;
      if (!ok1 || !ok2 || !cst(st, sv) ||
          !isT(S(of == o0 + ls.k * bv(sv))) ||
          ((int64_t)sv != (int64_t)w.n && (int64_t)sv != -(int64_t)w.n) ||
          (w.n & (w.n - 1))) {
        hv.insert(w.obj);
        continue;
      }
      LoopSummary::Stream x;
      x.obj = w.obj;
      x.o0 = o0;
      x.val = va;
      x.stride = (int64_t)sv;
      x.n = w.n;
      sts.push_back(x);
    }
    if (&b == &back[0]) {
      ls.streams = sts;
      ls.havocObjs = hv;
    } else {
      bool same = sts.size() == ls.streams.size();
      for (size_t i = 0; same && i < sts.size(); ++i)
        same = sts[i].obj == ls.streams[i].obj &&
               z3::eq(sts[i].o0, ls.streams[i].o0) &&
               z3::eq(sts[i].val, ls.streams[i].val) &&
               sts[i].stride == ls.streams[i].stride;
      for (int o : hv)
        ls.havocObjs.insert(o);
      if (!same) {
        for (auto &x : sts)
          ls.havocObjs.insert(x.obj);
        for (auto &x : ls.streams)
          ls.havocObjs.insert(x.obj);
      }
    }
  }
  auto purge = [&]() {
    vector<LoopSummary::Stream> k2;
    for (auto &x : ls.streams)
      if (!ls.havocObjs.count(x.obj))
        k2.push_back(x);
    ls.streams = k2;
    for (auto &p : ls.phis)
      if (!p.p && ls.havocObjs.count(p.obj))
        p.affine = false;
  };
  purge();
  // continuation condition
  if (back.size() == 1) {
    for (size_t i = s.pc.size(); i < back[0].pc.size(); ++i) {
      bool ok;
      E c = toK(back[0].pc[i], ok);
      if (ok && containsVar(c, ls.k))
        ls.cont.push_back(c);
    }
  } else {
    // one of several ways through the body was taken
    E any = Fa();
    for (auto &b : back) {
      E all = T();
      for (size_t i = s.pc.size(); i < b.pc.size(); ++i) {
        bool ok;
        E c = toK(b.pc[i], ok);
        if (ok)
          all = mkAnd(all, c);
      }
      any = any || all;
    }
    any = S(any);
    if (containsVar(any, ls.k))
      ls.cont.push_back(any);
  }
  // generic iteration
  E k = freshBV("n", 64);
  for (int attempt = 0; attempt < 6; ++attempt) {
    auto generic = [&](const E &kk, State &g) {
      applyStreams(g, ls, kk);
    };
    State g = s;
    g.logW = false;
    assume(g, z3::ult(k, bv(1ull << 50)));
    generic(k, g);
    if (!ls.cont.empty()) {
      E body = T();
      for (auto &c : ls.cont)
        body = mkAnd(body, c);
      E j = freshBV("j", 64);
      fact(g, j, T(), bv(0), k, subst(body, ls.k, j));
    }
    map<const LoopSummary::Phi *, E> hvv;
    auto phiVal = [&](const LoopSummary::Phi &p) -> Val {
      if (p.affine)
        return Val(closed(p, k));
      auto it = hvv.find(&p);
      if (it == hvv.end())
        it = hvv.insert({&p, p.isBool ? freshBool("h")
                                      : freshBV("h", p.init.get_sort().bv_size())})
                 .first;
      if (!p.isBool && hasBase(p.init)) // stays inside the same object
        return Val(S(p.init + it->second));
      return Val(it->second);
    };
    // a havocked pointer is only sound if it provably stays in its object: the
    // delta form covers every address based on that object; checked below
    State v = g;
    v.depthTrial++;
    vector<State> bk, exs;
    enterIteration(v, ls, d, phiVal);
    runIteration(v, H, L, d, bk, exs);
    bool changed = false;
    auto holds = [&](State &b, const E &c0) {
      E c = S(c0);
      if (isT(c))
        return true;
      vector<E> as = b.pc;
      as.push_back(!c);
      if (check(as, b.facts, g_query_ms).r == z3::unsat)
        return true;
      return false;
    };
    for (auto &b : bk) {
      if (b.nd.size() != s.nd.size() || b.caught.size() != s.caught.size())
        throw SumFail{"nondeterministic input in loop"};
      for (auto &p : ls.phis) {
        E n = phiNext(b, p);
        if (p.affine) {
          if (!holds(b, n == closed(p, S(k + bv(1))))) {
            p.affine = false;
            changed = true;
          }
        } else if (!p.isBool && hasBase(p.init)) {
          int i1, i2;
          E o(C());
          if (!splitPtr(S(n), i1, o) || !splitPtr(S(p.init), i2, o) || i1 != i2)
            throw SumFail{"pointer leaves its object"};
        }
      }
      vector<E> keep;
      for (auto &c : ls.cont) {
        if (holds(b, subst(c, ls.k, k)))
          keep.push_back(c);
        else
          changed = true;
      }
      ls.cont = keep;
      if (changed)
        break;
      // memory
      State e = s;
      generic(S(k + bv(1)), e);
      E z = freshBV("z", 64);
      for (auto &kv : b.objs) {
        int id = kv.first;
        if (!s.objs.count(id)) {
          if (kv.second->kind == Obj::Stack || kv.second->kind == Obj::Global ||
              kv.second->kind == Obj::Func)
            continue;
          throw SumFail{"allocation in loop"};
        }
        if (ls.havocObjs.count(id))
          continue;
        OP x = kv.second, y = e.objs.at(id);
        if (x->alive != y->alive)
          throw SumFail{"deallocation in loop"};
        auto gi = g.objs.find(id);
        if (gi != g.objs.end() && gi->second == x && y == s.objs.at(id))
          continue;
        State bb = b;
        // fixed locations are checked as phis; others pointwise
        E rb = readObj(bb, id, z, 1);
        State ee = b;
        ee.objs[id] = y;
        E notPhi = z3::ult(z, x->size);
        for (auto &p : ls.phis)
          if (!p.p && p.obj == id)
            notPhi = notPhi && !(z3::uge(z, bv(p.off)) &&
                                 z3::ult(z, bv(p.off + p.n)));
        E re = readObj(ee, id, z, 1);
        if (!holds(bb, z3::implies(notPhi, rb == re))) {
          ls.havocObjs.insert(id);
          changed = true;
        }
      }
      for (auto &kv : s.objs)
        if (!b.objs.count(kv.first))
          throw SumFail{"object destroyed in loop"};
    }
    if (changed) {
      purge();
      continue;
    }
    // inductive: now generate the obligations of one arbitrary iteration
    R.loopInv++;
    State fin = g;
    if (s0.logW)
      fin.logBad = true;
    fin.logW = s0.logW;
    enterIteration(fin, ls, d, phiVal);
    vector<State> bk2, ex2;
    runIteration(fin, H, L, d, bk2, ex2);
    if (ex2.empty() && !s0.depthTrial) {
      prove(fin, Fa(), "termination", "loop has no feasible exit");
    }
    return ex2;
  }
  throw SumFail{"no inductive invariant found"};
}

// ---------------------------------------------------------------- step
static string loopName(BasicBlock *H) {
  for (auto &I : *H)
    if (I.getDebugLoc())
      return dem(H->getParent()->getName().str()) + " at " + locOf(&I);
  return dem(H->getParent()->getName().str());
}
static map<BasicBlock *, string> g_sumWhy;

// block entry; returns false when the path was replaced (summary)
static bool enterBlock(State &s, std::deque<State> &work) {
  Frame &f = top(s);
  f.stopHere = false;
  BasicBlock *b = f.bb;
  if (f.prev) {
    LoopInfo &li = loopsOf(f.F);
    Loop *L = li.getLoopFor(b);
    if (L && L->getHeader() == b) {
      if (!L->contains(f.prev)) {
        f.iters[b] = 0;
        f.citers[b] = 0;
        f.pcAt[b] = s.pc.size();
        if (g_summarise.count(b)) {
          try {
            auto ex = summariseLoop(s, b, L);
            R.summarised.insert(loopName(b));
            for (auto &e : ex)
              work.push_back(std::move(e));
            return false;
          } catch (SumFail &sf) {
            if (g_verbose)
              fprintf(stderr, "[loop %s: %s -> bounded]\n", loopName(b).c_str(),
                      sf.why.c_str());
            g_sumWhy[b] = sf.why;
            g_summarise.erase(b);
            g_boundedLoops.insert(b);
            throw Restart{b};
          }
        }
        f.iters[b] = 0;
      } else {
        // iterations whose outcome was decided without adding a path
        // condition are concrete and do not count against the cap
        if (s.pc.size() != f.pcAt[b])
          ++f.iters[b];
        f.pcAt[b] = s.pc.size();
        int n = f.iters[b];
        if (++f.citers[b] > 5000)
          throw Budget{"loop with more than 5000 concrete iterations"};
        if (g_boundedLoops.count(b)) {
          if (n > g_bounded_unroll) {
            if (s.depthTrial == 0) {
              s.boundedCut = true;
              R.bounded.insert(loopName(b) + " (" + g_sumWhy[b] + ")");
            }
            throw PathEnd{};
          }
        } else if (n > g_unroll_cap) {
          g_summarise.insert(b);
          throw Restart{b};
        }
      }
    }
  }
  // phi nodes, simultaneously
  vector<std::pair<PHINode *, Val>> vals;
  for (auto &ph : b->phis())
    vals.push_back({&ph, get(s, ph.getIncomingValueForBlock(f.prev))});
  for (auto &v : vals)
    slot(f, v.first) = v.second;
  f.it = b->getFirstNonPHI()->getIterator();
  return true;
}

static void doCall(State &s, CallBase *cb);

static void step(State &s) {
  Frame &f0 = *s.st.back();
  Instruction *I = &*f0.it;
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    uint64_t es = DL->getTypeAllocSize(ai->getAllocatedType());
    E n = S(z3::zext(getE(s, ai->getArraySize()),
                     64 - bitsOfTy(ai->getArraySize()->getType())) *
            bv(es));
    OP o = allocObj(s, ai->hasName() ? ai->getName().str() : "tmp", Obj::Stack,
                    n);
    Frame &f = top(s);
    f.allocas.push_back(o->id);
    setRes(s, I, Val(o->base));
    advance(s);
    return;
  }
  case Instruction::Load: {
    auto *li = cast<LoadInst>(I);
    Ref r = resolve(s, getE(s, li->getPointerOperand()));
    checkAccess(s, r, bv(sizeOfTy(li->getType())), false, "read");
    setRes(s, I, loadTy(s, r.id, r.off, li->getType()));
    advance(s);
    return;
  }
  case Instruction::Store: {
    auto *si = cast<StoreInst>(I);
    Ref r = resolve(s, getE(s, si->getPointerOperand()));
    Type *t = si->getValueOperand()->getType();
    checkAccess(s, r, bv(sizeOfTy(t)), true, "write");
    storeTy(s, r.id, r.off, t, get(s, si->getValueOperand()));
    advance(s);
    return;
  }
  case Instruction::GetElementPtr:
    setRes(s, I, Val(gep(s, cast<GetElementPtrInst>(I))));
    advance(s);
    return;
  case Instruction::ICmp:
    setRes(s, I, icmp(s, cast<ICmpInst>(I)));
    advance(s);
    return;
  case Instruction::FCmp:
    setRes(s, I, fcmp(s, cast<FCmpInst>(I)));
    advance(s);
    return;
  case Instruction::FNeg: {
    E a = getE(s, I->getOperand(0));
    unsigned w = a.get_sort().bv_size();
    setRes(s, I, Val(S(a ^ bv(1ull << (w - 1), w))));
    advance(s);
    return;
  }
  case Instruction::Select: {
    E c = getE(s, I->getOperand(0));
    Val a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2));
    if (a.isAgg()) {
      setRes(s, I, branch(s, c) ? a : b);
    } else
      setRes(s, I, Val(S(z3::ite(c, a.e, b.e))));
    advance(s);
    return;
  }
  case Instruction::Freeze:
    setRes(s, I, get(s, I->getOperand(0)));
    advance(s);
    return;
  case Instruction::ExtractValue: {
    Val v = get(s, I->getOperand(0));
    for (unsigned i : cast<ExtractValueInst>(I)->indices()) {
      Val x = (*v.agg)[i];
      v = x;
    }
    setRes(s, I, v);
    advance(s);
    return;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(I);
    Val v = get(s, iv->getAggregateOperand());
    Val x = get(s, iv->getInsertedValueOperand());
    std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned lvl) -> Val {
      if (lvl == iv->getNumIndices())
        return x;
      Val r;
      r.agg = std::make_shared<vector<Val>>(*a.agg);
      unsigned ix = iv->getIndices()[lvl];
      (*r.agg)[ix] = ins((*a.agg)[ix], lvl + 1);
      return r;
    };
    setRes(s, I, ins(v, 0));
    advance(s);
    return;
  }
  case Instruction::Br: {
    auto *br = cast<BranchInst>(I);
    if (br->isUnconditional()) {
      jump(s, br->getSuccessor(0));
      return;
    }
    bool t = branch(s, getE(s, br->getCondition()));
    jump(s, br->getSuccessor(t ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    E c = getE(s, sw->getCondition());
    unsigned w = c.get_sort().bv_size();
    for (auto &cs : sw->cases()) {
      if (branch(s, c == bv(cs.getCaseValue()->getZExtValue(), w))) {
        jump(s, cs.getCaseSuccessor());
        return;
      }
    }
    jump(s, sw->getDefaultDest());
    return;
  }
  case Instruction::Unreachable:
    failHere(s, "control", "control never reaches a point marked unreachable");
  case Instruction::Ret: {
    auto *ri = cast<ReturnInst>(I);
    Val v;
    if (ri->getReturnValue())
      v = get(s, ri->getReturnValue());
    CallBase *site = f0.site;
    popFrame(s);
    if (s.st.empty() || !site) {
      s.ret = v;
      s.finished = true;
      return;
    }
    finishCall(s, site, v);
    return;
  }
  case Instruction::LandingPad:
    advance(s); // value set when unwinding
    return;
  case Instruction::Resume: {
    s.unwinding = true;
    popFrame(s);
    return;
  }
  case Instruction::Call:
  case Instruction::Invoke:
    doCall(s, cast<CallBase>(I));
    return;
  case Instruction::Fence:
    advance(s);
    return;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(I);
    Ref r = resolve(s, getE(s, rm->getPointerOperand()));
    Type *t = rm->getValOperand()->getType();
    unsigned n = sizeOfTy(t);
    checkAccess(s, r, bv(n), true, "atomic update");
    E old = fromMem(readObj(s, r.id, r.off, n), t).e;
    E v = getE(s, rm->getValOperand());
    E nw(C());
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg:
      nw = v;
      break;
    case AtomicRMWInst::Add:
      nw = old + v;
      break;
    case AtomicRMWInst::Sub:
      nw = old - v;
      break;
    case AtomicRMWInst::Or:
      nw = old | v;
      break;
    case AtomicRMWInst::And:
      nw = old & v;
      break;
    default:
      throw Unsupported{"atomicrmw"};
    }
    writeObj(s, r.id, r.off, n, toMem(nw, n));
    setRes(s, I, Val(old));
    advance(s);
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *cx = cast<AtomicCmpXchgInst>(I);
    Ref r = resolve(s, getE(s, cx->getPointerOperand()));
    Type *t = cx->getNewValOperand()->getType();
    unsigned n = sizeOfTy(t);
    checkAccess(s, r, bv(n), true, "atomic update");
    E old = fromMem(readObj(s, r.id, r.off, n), t).e;
    E cmp = getE(s, cx->getCompareOperand());
    E eq = S(t->isPointerTy() ? ptrEq(s, old, cmp) : old == cmp);
    writeObj(s, r.id, r.off, n,
             toMem(z3::ite(eq, getE(s, cx->getNewValOperand()), old), n));
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    v.agg->push_back(Val(old));
    v.agg->push_back(Val(eq));
    setRes(s, I, v);
    advance(s);
    return;
  }
  case Instruction::VAArg:
    throw Unsupported{"va_arg"};
  default:
    break;
  }
  if (auto *b = dyn_cast<BinaryOperator>(I)) {
    Val v = binop(s, b);
    setRes(s, I, v);
    advance(s);
    return;
  }
  if (auto *c = dyn_cast<CastInst>(I)) {
    Val v = castop(s, c);
    setRes(s, I, v);
    advance(s);
    return;
  }
  throw Unsupported{string("instruction ") + I->getOpcodeName()};
}

static long g_steps = 0;
static void explore(std::deque<State> &work, vector<State> &done, size_t depth,
                    const std::function<bool(State &)> &stop) {
  while (!work.empty()) {
    State s = std::move(work.back());
    work.pop_back();
    if (++R.paths > g_max_paths)
      throw Budget{"too many paths"};
    bool alive = true;
    while (alive) {
      if (s.st.size() <= depth) {
        done.push_back(std::move(s));
        break;
      }
      if (s.unwinding) {
        if (stop && stop(s)) {
          done.push_back(std::move(s));
          break;
        }
        unwindStep(s);
        continue;
      }
      if (stop && stop(s)) {
        done.push_back(std::move(s));
        break;
      }
      try {
        Frame &f = *s.st.back();
        if (f.it == f.bb->begin() && (f.stopHere || !f.prev)) {
          if (f.prev || f.stopHere) {
            if (!enterBlock(s, work)) {
              alive = false;
              break;
            }
            if (stop && s.st.back()->it != s.st.back()->bb->begin())
              continue;
          }
        }
        if ((++g_steps & 1023) == 0 && now() > g_deadline)
          throw Budget{"time budget of this contract used up"};
        if (g_steps > 60000000)
          throw Budget{"step budget used up"};
        {
          Frame &ff = *s.st.back();
          if (auto &dl = ff.it->getDebugLoc()) {
            if (s.depthTrial == 0) {
              static map<const Function *, int> isRepo;
              auto it = isRepo.find(ff.F);
              if (it == isRepo.end())
                it = isRepo
                         .insert({ff.F, fileOf(ff.F).rfind(g_repoRoot + "/",
                                                           0) == 0})
                         .first;
              if (it->second) {
                auto fn = dl->getFilename().str();
                R.lines[fn].insert(dl.getLine());
              }
            }
          }
        }
        step(s);
      } catch (ForkReq &fr) {
        State o = s;
        bool okA = true;
        try {
          assume(o, !fr.cond);
        } catch (PathEnd &) {
          okA = false;
        }
        if (okA)
          work.push_back(std::move(o));
        try {
          assume(s, fr.cond);
        } catch (PathEnd &) {
          alive = false;
        }
      } catch (PathEnd &) {
        alive = false;
      }
    }
  }
}
// ---------------------------------------------------------------- calls
static void addND(State &s, const NDRec &r) {
  if (s.pureDepth)
    throw Unsupported{"nondet inside a quantifier body"};
  s.nd.push_back(r);
}
// a nondeterministic decision of the environment, recorded for replay
static bool choose(State &s, const string &name) {
  if (!s.hasChoice) {
    s.hasChoice = true;
    s.choice = freshBV("choice_" + name, 8);
    NDRec r;
    r.kind = 'N';
    r.name = name;
    r.n = 1;
    r.val = s.choice;
    addND(s, r);
    assume(s, z3::ule(s.choice, bv(1, 8)));
    throw ForkReq{S(s.choice == bv(1, 8))};
  }
  bool v = decide(s, s.choice == bv(1, 8)) == 1;
  s.hasChoice = false;
  return v;
}
static long liveAllocs(State &s) {
  long n = 0;
  for (auto &kv : s.objs)
    if (kv.second->alive &&
        (kv.second->kind == Obj::New || kv.second->kind == Obj::NewArr ||
         kv.second->kind == Obj::Malloc))
      ++n;
  return n;
}

// --- RTTI
// vtable-based dynamic type: returns type_info name and offset-to-top
static bool dynType(State &s, const Ref &r, string &ti, int64_t &ott) {
  E vp = readObj(s, r.id, r.off, 8);
  Ref v = resolve(s, vp);
  if (v.null || v.raw)
    return false;
  E a = readObj(s, v.id, S(v.off - bv(8)), 8);
  E b = readObj(s, v.id, S(v.off - bv(16)), 8);
  int id;
  E o(C());
  uint64_t x;
  if (!splitPtr(a, id, o) || !cst(b, x))
    return false;
  ott = (int64_t)x;
  ti = g_ginit.at(id)->name;
  return true;
}
// all subobjects of (type ti at offset off in object r)
struct Sub {
  string ti;
  int64_t off;
  bool pub;
};
static void subobjects(State &s, int id, const E &base, const string &ti,
                       int64_t off, bool pub, vector<Sub> &out) {
  out.push_back({ti, off, pub});
  for (auto &b : basesOf(ti)) {
    int64_t o = b.off;
    if (b.virt) {
      E vp = readObj(s, id, S(base + bv((uint64_t)off)), 8);
      Ref v = resolve(s, vp);
      E x = readObj(s, v.id, S(v.off + bv((uint64_t)b.off)), 8);
      o = (int64_t)cval(x);
    }
    bool dup = false;
    if (b.virt)
      for (auto &q : out)
        if (q.ti == b.name && q.off == off + o)
          dup = true;
    if (!dup)
      subobjects(s, id, base, b.name, off + o, pub && b.pub, out);
  }
}
static E dynCast(State &s, const E &p, const string &src, const string &dst) {
  Ref r = resolve(s, p);
  checkAccess(s, r, bv(8), false, "read of virtual table pointer");
  string ti;
  int64_t ott;
  if (!dynType(s, r, ti, ott))
    throw Unsupported{"dynamic type of object"};
  E topOff = S(r.off + bv((uint64_t)ott));
  vector<Sub> subs;
  subobjects(s, r.id, topOff, ti, 0, true, subs);
  vector<int64_t> c;
  for (auto &x : subs)
    if (x.ti == dst && x.pub) {
      bool dup = false;
      for (auto o : c)
        if (o == x.off)
          dup = true;
      if (!dup)
        c.push_back(x.off);
    }
  if (c.size() == 1)
    return S(s.objs.at(r.id)->base + topOff + bv((uint64_t)c[0]));
  if (c.empty())
    return bv(0);
  throw Unsupported{"ambiguous dynamic_cast"};
}

static void throwNamed(State &s, const string &cls) {
  throwStd(s, "_ZTISt" + std::to_string(cls.size()) + cls);
}

static bool doBuiltin(State &s, CallBase *cb, const string &name, Val &out,
                      bool &unwound) {
  auto A = [&](unsigned i) { return getE(s, cb->getArgOperand(i)); };
  auto is = [&](const char *n) { return name == n; };
  unwound = false;

  // ---- contract language
  if (name.rfind("__spec_", 0) == 0) {
    if (is("__spec_assume")) {
      E c = A(0);
      if (!c.is_bool())
        c = S(ex(c, 0, 0) == bv(1, 1));
      c = S(c);
      if (isT(c) || inPc(s, c))
        return true;
      if (isF(c))
        throw PathEnd{};
      assume(s, c);
      if (feasible(s))
        return true;
      throw PathEnd{};
    }
    if (is("__spec_assert")) {
      E c = A(0);
      if (!c.is_bool())
        c = S(ex(c, 0, 0) == bv(1, 1));
      prove(s, c, "ensures", cstrConst(s, A(1)));
      return true;
    }
    if (is("__spec_nondet")) {
      Ref r = resolve(s, A(0));
      uint64_t n = cval(A(1));
      string nm = ndName(cstrConst(s, A(2)));
      checkAccess(s, r, bv(n), true, "nondet");
      NDRec d;
      d.kind = 'N';
      d.name = nm;
      d.n = n;
      E v = freshBV("nd_" + nm, 8 * n);
      d.val = v;
      addND(s, d);
      uint64_t o;
      if (n > 8 && cst(r.off, o)) {
        for (uint64_t i = 0; i < n; i += 8) {
          unsigned l = std::min<uint64_t>(8, n - i);
          writeObj(s, r.id, bv(o + i), l, ex(v, 8 * (i + l) - 1, 8 * i));
        }
      } else
        writeObj(s, r.id, r.off, n, v);
      return true;
    }
    if (is("__spec_fillbuf")) { // (p, n, name): arbitrary bytes, n arbitrary
      Ref r = resolve(s, A(0));
      E n = A(1);
      string nm = ndName(cstrConst(s, A(2)));
      checkAccess(s, r, n, true, "nondet");
      NDRec d;
      d.kind = 'B';
      d.name = nm;
      d.len = n;
      d.f = freshUF("buf_" + nm);
      addND(s, d);
      auto src = std::make_shared<MNode>();
      src->k = MNode::Base;
      src->f = d.f;
      Obj &o = wr(s, r.id);
      flushCells(o);
      auto m = std::make_shared<MNode>();
      m->k = MNode::Copy;
      m->prev = o.chain;
      m->off = r.off;
      m->len = n;
      m->src = src;
      m->soff = bv(0);
      o.chain = m;
      return true;
    }
    if (is("__spec_buf") || is("__spec_cstr")) {
      bool cs = is("__spec_cstr");
      NDRec d;
      d.kind = cs ? 'S' : 'B';
      E n(C());
      if (cs) {
        d.name = ndName(cstrConst(s, A(1)));
        n = freshBV("len_" + d.name, 64);
        assume(s, z3::ult(n, bv(1ull << 40)));
      } else {
        n = A(0);
        d.name = ndName(cstrConst(s, A(1)));
      }
      d.len = n;
      d.f = freshUF("bytes_" + d.name);
      addND(s, d);
      OP o = newObj(d.name, Obj::Ext, cs ? S(n + bv(1)) : n);
      o->chain = std::make_shared<MNode>();
      o->chain->k = MNode::Base;
      o->chain->f = d.f;
      s.objs[o->id] = o;
      if (cs) {
        assume(s, d.f(n) == bv(0, 8));
        E k = freshBV("k", 64);
        fact(s, k, T(), bv(0), n, d.f(k) != bv(0, 8));
        Ref r = resolve(s, A(0));
        writeObj(s, r.id, r.off, 8, n);
      }
      out = Val(o->base);
      return true;
    }
    if (is("__spec_forall")) {
      E lo = A(0), hi = A(1);
      Ref fr = resolve(s, A(2));
      Function *F = g_funcOf.at(fr.id);
      E ctx = A(3);
      uint64_t l, h;
      if (cst(lo, l) && cst(hi, h) && (h <= l || h - l <= 10)) {
        E acc = T();
        for (uint64_t i = l; i < h; ++i) {
          E k = bv(i);
          acc = mkAnd(acc, execPure(s, F, {Val(ctx), Val(k)}, lo, hi, k));
        }
        out = Val(S(acc));
        return true;
      }
      if (decide(s, z3::uge(lo, hi)) == 1) {
        out = Val(T());
        return true;
      }
      E k = freshBV("k", 64);
      E body = execPure(s, F, {Val(ctx), Val(k)}, lo, hi, k);
      if (isT(body)) {
        out = Val(T());
        return true;
      }
      E b = freshBool("all");
      fact(s, k, b, lo, hi, body);
      E sk = freshBV("sk", 64);
      s.pc.push_back(b || (z3::ule(lo, sk) && z3::ult(sk, hi) &&
                           !subst(body, k, sk)));
      out = Val(b);
      return true;
    }
    if (is("__spec_readonly")) {
      Ref r = resolve(s, A(0));
      Obj &o = wr(s, r.id);
      uint64_t v = cval(A(1));
      o.readonly = v;
      o.why = "outside the frame of the contract";
      return true;
    }
    if (is("__spec_kill")) { // end the lifetime of an environment object
      Ref r = resolve(s, A(0));
      Obj &o = wr(s, r.id);
      o.alive = false;
      return true;
    }
    if (is("__spec_live")) {
      out = Val(bv(liveAllocs(s)));
      return true;
    }
    if (is("__spec_bad_alloc")) {
      s.badAlloc = cval(A(0));
      return true;
    }
    if (is("__spec_valid")) {
      Ref r = resolve(s, A(0));
      E n = A(1);
      E ok = Fa();
      if (!r.null && !r.raw && s.objs.count(r.id) && s.objs[r.id]->alive)
        ok = S(z3::ule(n, s.objs[r.id]->size) &&
               z3::ule(r.off, s.objs[r.id]->size - n));
      out = Val(ok);
      return true;
    }
    if (is("__spec_same_object")) {
      Ref a = resolve(s, A(0)), b = resolve(s, A(1));
      out = Val(C().bool_val(!a.null && !b.null && !a.raw && !b.raw &&
                             a.id == b.id));
      return true;
    }
    if (is("__spec_heap_array")) { // allocated by new[]
      Ref a = resolve(s, A(0));
      bool ok = !a.null && !a.raw && s.objs.count(a.id) &&
                s.objs[a.id]->alive && s.objs[a.id]->kind == Obj::NewArr;
      out = Val(ok ? S(a.off == bv(0)) : Fa());
      return true;
    }
    if (is("__spec_cover")) {
      string nm = cstrConst(s, A(0));
      if (!R.coversSeen.count(nm)) {
        vector<E> as = s.pc;
        if (check(as, s.facts, g_query_ms).r != z3::unsat)
          R.coversSeen.insert(nm);
        else
          throw PathEnd{};
      }
      return true;
    }
    if (is("__spec_choose")) {
      bool b = choose(s, ndName(cstrConst(s, A(0))));
      out = Val(C().bool_val(b));
      return true;
    }
    if (is("__spec_native")) {
      out = Val(Fa());
      return true;
    }
    if (is("__spec_throw")) { // throw a standard exception by class name
      throwNamed(s, cstrConst(s, A(0)));
      unwound = true;
      return true;
    }
    if (is("__spec_fail")) {
      failHere(s, "library", cstrConst(s, A(0)));
    }
    throw Unsupported{"contract primitive " + name};
  }

  // ---- memory functions
  if (is("memcpy") || is("memmove") || is("llvm.memcpy") ||
      is("llvm.memmove") || is("__memcpy_chk") || is("__memmove_chk") ||
      is("mempcpy")) {
    bool mv = name.find("memmove") != string::npos;
    E n = A(2);
    if (n.get_sort().bv_size() < 64)
      n = z3::zext(n, 64 - n.get_sort().bv_size());
    n = S(n);
    E d0 = A(0);
    out = Val(d0);
    uint64_t nv;
    if (cst(n, nv) && nv == 0)
      return true;
    if (decide(s, n == bv(0)) == 1)
      return true;
    Ref d = resolve(s, d0), r = resolve(s, A(1));
    if (d.null || d.raw || r.null || r.raw)
      prove(s, n == bv(0), "memory", "block copy through a null or invalid pointer");
    if (d.null || d.raw || r.null || r.raw)
      return true;
    // a zero-length copy touches nothing
    {
      auto ck = [&](const Ref &x, bool w, const char *wh) {
        auto it = s.objs.find(x.id);
        if (it == s.objs.end() || !it->second->alive)
          prove(s, n == bv(0), "memory",
                string(wh) + " of an object whose lifetime has ended");
        else {
          prove(s, n == bv(0) || (z3::ule(n, it->second->size) &&
                                  z3::ule(x.off, it->second->size - n)),
                "memory",
                string(wh) + " within the bounds of object '" +
                    it->second->name + "'");
          if (w && it->second->readonly)
            prove(s, n == bv(0), "frame",
                  "block write to '" + it->second->name + "' (" +
                      it->second->why + ")");
        }
      };
      ck(r, false, "block read");
      ck(d, true, "block write");
      if (!s.objs.count(d.id) || !s.objs.count(r.id))
        return true;
    }
    if (!mv && d.id == r.id)
      prove(s, d.off == r.off || z3::ule(n, d.off - r.off) &&
                                    z3::ule(n, r.off - d.off),
            "memory", "memcpy source and destination do not overlap");
    copyRange(s, d.id, d.off, r.id, r.off, n);
    if (is("mempcpy"))
      out = Val(S(d0 + n));
    return true;
  }
  if (is("memset") || is("llvm.memset")) {
    E n = A(2);
    if (n.get_sort().bv_size() < 64)
      n = z3::zext(n, 64 - n.get_sort().bv_size());
    E v = A(1);
    if (v.get_sort().bv_size() > 8)
      v = ex(v, 7, 0);
    out = Val(A(0));
    if (decide(s, n == bv(0)) == 1)
      return true;
    Ref d = resolve(s, A(0));
    checkAccess(s, d, n, true, "block fill");
    fillRange(s, d.id, d.off, v, n);
    return true;
  }
  if (is("memcmp") || is("bcmp") || is("__builtin_memcmp")) {
    E n = A(2);
    if (decide(s, n == bv(0)) == 1) {
      out = Val(bv(0, 32));
      return true;
    }
    Ref a = resolve(s, A(0)), b = resolve(s, A(1));
    for (auto *x : {&a, &b}) {
      if (x->null || x->raw)
        prove(s, n == bv(0), "memory", "memcmp through a null or invalid pointer");
      else
        checkAccess(s, *x, bv(0), false, "memcmp");
    }
    if (a.null || a.raw || b.null || b.raw) {
      out = Val(bv(0, 32));
      return true;
    }
    prove(s, n == bv(0) || (z3::ule(n, spanOf(s, a)) && z3::ule(n, spanOf(s, b)) &&
                            z3::ule(a.off, s.objs.at(a.id)->size) &&
                            z3::ule(b.off, s.objs.at(b.id)->size)),
          "memory", "memcmp reads within the bounds of its operands");
    E d = firstIndex(s, n, "diff", [&](const E &i) {
      return rd1(s, a.id, S(a.off + i)) != rd1(s, b.id, S(b.off + i));
    });
    E x = rd1(s, a.id, S(a.off + d)), y = rd1(s, b.id, S(b.off + d));
    if (s.pureDepth) {
      out = Val(S(z3::ite(d == n, bv(0, 32),
                          z3::ite(z3::ult(x, y), bv(~0u, 32), bv(1, 32)))));
      return true;
    }
    E r = freshBV("cmp", 32);
    assume(s, z3::implies(d == n, r == bv(0, 32)));
    assume(s, z3::implies(d != n, z3::ite(z3::ult(x, y), r < bv(0, 32),
                                          r > bv(0, 32))));
    out = Val(r);
    return true;
  }
  if (is("memchr")) {
    E n = A(2);
    E c = A(1);
    if (c.get_sort().bv_size() > 8)
      c = S(ex(c, 7, 0));
    if (decide(s, n == bv(0)) == 1) {
      out = Val(bv(0));
      return true;
    }
    E p = A(0);
    Ref a = resolve(s, p);
    if (a.null || a.raw) {
      prove(s, n == bv(0), "memory", "memchr through a null or invalid pointer");
      out = Val(bv(0));
      return true;
    }
    checkAccess(s, a, bv(0), false, "memchr");
    E sp = spanOf(s, a);
    E m = S(z3::ite(z3::ule(n, sp), n, sp));
    if (implied(s, z3::ule(n, sp)))
      m = n;
    E d = firstIndex(s, m, "pos",
                     [&](const E &i) { return rd1(s, a.id, S(a.off + i)) == c; });
    prove(s, z3::ult(d, m) || z3::ule(n, sp), "memory",
          "memchr stops within the bounds of its operand");
    out = Val(S(z3::ite(z3::ult(d, m), p + d, bv(0))));
    return true;
  }
  if (is("ldexp") || is("ldexpf") || is("scalbn") || is("scalbnf")) {
    // multiplication by a power of two, for a constant moderate exponent
    uint64_t n;
    if (!cst(A(1), n) || std::abs((int)n) > 100)
      throw Unsupported{"ldexp with a symbolic or large exponent"};
    E x = toFP(A(0));
    E k(C(), Z3_mk_fpa_numeral_double(C(), std::ldexp(1.0, (int)n), x.get_sort()));
    out = Val(fromFP(s, E(C(), Z3_mk_fpa_mul(C(), Z3_mk_fpa_rne(C()), x, k))));
    return true;
  }
  if (is("strlen")) {
    Ref a = resolve(s, A(0));
    checkAccess(s, a, bv(1), false, "strlen");
    E sp = spanOf(s, a);
    E d = firstIndex(s, sp, "strlen", [&](const E &i) {
      return rd1(s, a.id, S(a.off + i)) == bv(0, 8);
    });
    prove(s, z3::ult(d, sp), "memory",
          "strlen finds a terminating NUL within object '" +
              s.objs.at(a.id)->name + "'");
    out = Val(d);
    return true;
  }
  if (is("strnlen")) {
    Ref a = resolve(s, A(0));
    E n = A(1);
    checkAccess(s, a, bv(0), false, "strnlen");
    E sp = spanOf(s, a);
    E m = S(z3::ite(z3::ule(n, sp), n, sp));
    E d = firstIndex(s, m, "strnlen", [&](const E &i) {
      return rd1(s, a.id, S(a.off + i)) == bv(0, 8);
    });
    prove(s, z3::ult(d, m) || z3::ule(n, sp), "memory",
          "strnlen stops within the bounds of its operand");
    out = Val(d);
    return true;
  }
  if (is("strcmp") || is("strncmp")) {
    Ref a = resolve(s, A(0)), b = resolve(s, A(1));
    checkAccess(s, a, bv(1), false, "strcmp");
    checkAccess(s, b, bv(1), false, "strcmp");
    E sa = spanOf(s, a), sb = spanOf(s, b);
    E m = S(z3::ite(z3::ule(sa, sb), sa, sb));
    E lim = m;
    if (is("strncmp"))
      lim = S(z3::ite(z3::ule(A(2), m), A(2), m));
    E d = firstIndex(s, lim, "strcmp", [&](const E &i) {
      E x = rd1(s, a.id, S(a.off + i)), y = rd1(s, b.id, S(b.off + i));
      return x != y || x == bv(0, 8);
    });
    if (is("strncmp"))
      prove(s, z3::ult(d, lim) || z3::ule(A(2), m), "memory",
            "strncmp stops within the bounds of its operands");
    else
      prove(s, z3::ult(d, m), "memory",
            "strcmp stops within the bounds of its operands");
    E x = rd1(s, a.id, S(a.off + d)), y = rd1(s, b.id, S(b.off + d));
    E eq = S(d == lim || x == y);
    if (s.pureDepth) {
      out = Val(S(z3::ite(eq, bv(0, 32),
                          z3::ite(z3::ult(x, y), bv(~0u, 32), bv(1, 32)))));
      return true;
    }
    E r = freshBV("cmp", 32);
    assume(s, z3::implies(eq, r == bv(0, 32)));
    assume(s, z3::implies(!eq, z3::ite(z3::ult(x, y), r < bv(0, 32),
                                       r > bv(0, 32))));
    out = Val(r);
    return true;
  }
  // ---- allocation
  if (is("_Znwm") || is("_Znam") || is("_ZnwmSt11align_val_t") ||
      is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t") || is("malloc") ||
      is("calloc")) {
    bool nt = name.find("nothrow") != string::npos || is("malloc") || is("calloc");
    if (s.badAlloc && choose(s, "alloc_fails")) {
      if (nt)
        out = Val(bv(0));
      else {
        throwNamed(s, "bad_alloc");
        unwound = true;
      }
      return true;
    }
    E n = A(0);
    if (is("calloc"))
      n = S(n * A(1));
    // requests beyond the address space fail (std::bad_alloc / null)
    if (!branch(s, z3::ule(n, bv(1ull << 46)))) {
      if (nt)
        out = Val(bv(0));
      else {
        throwNamed(s, "bad_alloc");
        unwound = true;
      }
      return true;
    }
    OP o = allocObj(s, "heap block", is("malloc") || is("calloc") ? Obj::Malloc
                                     : name[3] == 'a'             ? Obj::NewArr
                                                                  : Obj::New,
                    n);
    if (is("calloc"))
      o->chain = mkZero();
    out = Val(o->base);
    return true;
  }
  if (name.rfind("_ZdlPv", 0) == 0 || name.rfind("_ZdaPv", 0) == 0 || is("free")) {
    E p = A(0);
    Ref r = resolve(s, p);
    if (r.null)
      return true;
    if (r.raw)
      failHere(s, "memory", "delete of an invalid pointer");
    auto it = s.objs.find(r.id);
    if (it == s.objs.end() || !it->second->alive)
      failHere(s, "memory", "delete of memory that is already freed");
    Obj::Kind want = is("free") ? Obj::Malloc
                     : name[3] == 'a' ? Obj::NewArr
                                      : Obj::New;
    if (it->second->kind != want)
      failHere(s, "memory",
               "deallocation function matches the allocation of '" +
                   it->second->name + "'");
    prove(s, r.off == bv(0), "memory",
          "delete is given the start of the allocation");
    wr(s, r.id).alive = false;
    return true;
  }
  // ---- exceptions
  if (is("__cxa_allocate_exception")) {
    OP o = allocObj(s, "exception object", Obj::Exc, A(0));
    out = Val(o->base);
    return true;
  }
  if (is("__cxa_free_exception"))
    return true;
  if (is("__cxa_throw")) {
    auto *ti = cb->getArgOperand(1)->stripPointerCasts();
    startUnwind(s, A(0), ti->getName().str(), 0);
    s.cur.dtor = dyn_cast<Function>(cb->getArgOperand(2)->stripPointerCasts());
    unwound = true;
    return true;
  }
  if (is("__cxa_begin_catch")) {
    s.caught.push_back(s.cur);
    out = Val(A(0));
    return true;
  }
  if (is("__cxa_get_exception_ptr")) {
    out = Val(A(0));
    return true;
  }
  if (is("__cxa_end_catch")) {
    if (s.caught.empty())
      return true;
    auto ex = s.caught.back();
    s.caught.pop_back();
    bool last = !ex.rethrown && ex.dtor && !ex.dtor->isDeclaration();
    for (auto &c : s.caught)
      if (z3::eq(S(c.ptr), S(ex.ptr)))
        last = false;
    if (last) { // the last handler of the exception is left: it is destroyed
      pushCall(s, cb, ex.dtor, {Val(ex.ptr)});
      unwound = true; // the call returns to the instruction after this one
    }
    return true;
  }
  if (is("__cxa_rethrow")) {
    if (s.caught.empty())
      failHere(s, "control", "rethrow without a current exception");
    s.caught.back().rethrown = true;
    s.cur = s.caught.back();
    s.cur.rethrown = false;
    s.unwinding = true;
    unwound = true;
    return true;
  }
  if (is("llvm.eh.typeid.for")) {
    out = Val(bv(tiId(cb->getArgOperand(0)->stripPointerCasts()->getName().str()),
                 32));
    return true;
  }
  if (is("__dynamic_cast")) {
    E p = A(0);
    out = Val(dynCast(s, p,
                      cb->getArgOperand(1)->stripPointerCasts()->getName().str(),
                      cb->getArgOperand(2)->stripPointerCasts()->getName().str()));
    return true;
  }
  if (is("__cxa_bad_cast")) {
    throwNamed(s, "bad_cast");
    unwound = true;
    return true;
  }
  if (is("_ZSt9terminatev") || is("abort") || is("__clang_call_terminate"))
    failHere(s, "control", "std::terminate / abort is never reached");
  if (is("__cxa_pure_virtual"))
    failHere(s, "control", "no pure virtual call");
  if (is("__assert_fail") || is("_ZSt21__glibcxx_assert_failPKciS0_S0_"))
    failHere(s, "control", "assertion holds");
  if (is("__cxa_guard_acquire")) {
    Ref r = resolve(s, A(0));
    E b = readObj(s, r.id, r.off, 1);
    out = Val(S(z3::ite(b == bv(0, 8), bv(1, 32), bv(0, 32))));
    return true;
  }
  if (is("__cxa_guard_release")) {
    Ref r = resolve(s, A(0));
    writeObj(s, r.id, r.off, 1, bv(1, 8));
    return true;
  }
  if (is("__cxa_guard_abort") || is("__cxa_atexit") || is("atexit")) {
    out = Val(bv(0, 32));
    return true;
  }
  if (name.rfind("_ZNSt8ios_base4Init", 0) == 0)
    return true;
  if (name.rfind("_ZSt", 0) == 0 && name.find("__throw_") != string::npos) {
    string d = dem(name); // std::__throw_length_error(char const*)
    auto p = d.find("__throw_");
    string cls = d.substr(p + 8);
    cls = cls.substr(0, cls.find('('));
    if (cls == "out_of_range_fmt")
      cls = "out_of_range";
    throwNamed(s, cls);
    unwound = true;
    return true;
  }
  // standard exception classes: constructors, destructors: no effect beyond
  // the dynamic type
  {
    static const char *pre[] = {"_ZNSt12out_of_range", "_ZNSt12length_error",
                                "_ZNSt16invalid_argument", "_ZNSt11logic_error",
                                "_ZNSt13runtime_error", "_ZNSt9exception",
                                "_ZNSt9bad_alloc", "_ZNSt11range_error",
                                "_ZNSt12domain_error", "_ZNSt8bad_cast"};
    for (auto *p : pre)
      if (name.rfind(p, 0) == 0 &&
          (name.find("C1E") != string::npos || name.find("C2E") != string::npos ||
           name.find("D1E") != string::npos || name.find("D2E") != string::npos)) {
        Ref r = resolve(s, A(0));
        mustBeObject(s, r, "exception object");
        return true;
      }
  }
  return false;
}

static bool doIntrinsic(State &s, CallBase *cb, IntrinsicInst *ii) {
  auto A = [&](unsigned i) { return getE(s, cb->getArgOperand(i)); };
  Val out;
  switch (ii->getIntrinsicID()) {
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::dbg_label:
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::donothing:
  case Intrinsic::prefetch:
  case Intrinsic::stackrestore:
  case Intrinsic::assume:
    break;
  case Intrinsic::stacksave:
    out = Val(bv(0));
    break;
  case Intrinsic::memcpy:
  case Intrinsic::memmove:
  case Intrinsic::memset: {
    bool u;
    doBuiltin(s, cb,
              ii->getIntrinsicID() == Intrinsic::memcpy    ? "llvm.memcpy"
              : ii->getIntrinsicID() == Intrinsic::memmove ? "llvm.memmove"
                                                           : "llvm.memset",
              out, u);
    break;
  }
  case Intrinsic::expect:
    out = get(s, cb->getArgOperand(0));
    break;
  case Intrinsic::is_constant:
    out = Val(Fa());
    break;
  case Intrinsic::objectsize:
    out = Val(bv(~0ull, bitsOfTy(cb->getType())));
    break;
  case Intrinsic::trap:
  case Intrinsic::ubsantrap:
    failHere(s, "control", "trap is never reached");
  case Intrinsic::eh_typeid_for: {
    bool u;
    doBuiltin(s, cb, "llvm.eh.typeid.for", out, u);
    break;
  }
  case Intrinsic::umin:
    out = Val(S(z3::ite(z3::ult(A(0), A(1)), A(0), A(1))));
    break;
  case Intrinsic::umax:
    out = Val(S(z3::ite(z3::ugt(A(0), A(1)), A(0), A(1))));
    break;
  case Intrinsic::smin:
    out = Val(S(z3::ite(A(0) < A(1), A(0), A(1))));
    break;
  case Intrinsic::smax:
    out = Val(S(z3::ite(A(0) > A(1), A(0), A(1))));
    break;
  case Intrinsic::abs: {
    E a = A(0);
    out = Val(S(z3::ite(a < bv(0, a.get_sort().bv_size()), -a, a)));
    break;
  }
  case Intrinsic::fabs: {
    E a = A(0);
    unsigned w = a.get_sort().bv_size();
    out = Val(S(a & bv(w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull, w)));
    break;
  }
  case Intrinsic::is_fpclass: {
    E a = A(0);
    unsigned w = a.get_sort().bv_size();
    uint64_t m = cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue();
    unsigned mw = w == 64 ? 52 : 23;
    E sg = ex(a, w - 1, w - 1) == bv(1, 1), e = ex(a, w - 2, mw), f = ex(a, mw - 1, 0);
    unsigned ew = w - 1 - mw;
    E ones = e == bv((1ull << ew) - 1, ew), ze = e == bv(0, ew), zf = f == bv(0, mw);
    E q = ex(a, mw - 1, mw - 1) == bv(1, 1);
    E cl[10] = {ones && !zf && !q, ones && !zf && q, sg && ones && zf, sg && !ones && !ze,
                sg && ze && !zf, sg && ze && zf, !sg && ze && zf, !sg && ze && !zf,
                !sg && !ones && !ze, !sg && ones && zf};
    E r = Fa();
    for (int i = 0; i < 10; ++i)
      if (m >> i & 1)
        r = r || cl[i];
    out = Val(S(r));
    break;
  }
  case Intrinsic::floor:
  case Intrinsic::ceil:
  case Intrinsic::trunc:
  case Intrinsic::round: {
    Z3_ast m = ii->getIntrinsicID() == Intrinsic::floor  ? Z3_mk_fpa_rtn(C())
               : ii->getIntrinsicID() == Intrinsic::ceil ? Z3_mk_fpa_rtp(C())
               : ii->getIntrinsicID() == Intrinsic::round ? Z3_mk_fpa_rna(C())
                                                          : Z3_mk_fpa_rtz(C());
    out = Val(fromFP(s, E(C(), Z3_mk_fpa_round_to_integral(C(), m, toFP(A(0))))));
    break;
  }
  case Intrinsic::umul_with_overflow:
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::smul_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow: {
    E a = A(0), b = A(1);
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    auto id = ii->getIntrinsicID();
    E r(C()), o(C());
    auto B = [&](Z3_ast x) { return E(C(), x); };
    if (id == Intrinsic::umul_with_overflow) {
      r = a * b;
      o = !B(Z3_mk_bvmul_no_overflow(C(), a, b, false));
    } else if (id == Intrinsic::uadd_with_overflow) {
      r = a + b;
      o = z3::ult(r, a);
    } else if (id == Intrinsic::usub_with_overflow) {
      r = a - b;
      o = z3::ult(a, b);
    } else if (id == Intrinsic::smul_with_overflow) {
      r = a * b;
      o = !(B(Z3_mk_bvmul_no_overflow(C(), a, b, true)) &&
            B(Z3_mk_bvmul_no_underflow(C(), a, b)));
    } else if (id == Intrinsic::sadd_with_overflow) {
      r = a + b;
      o = !(B(Z3_mk_bvadd_no_overflow(C(), a, b, true)) &&
            B(Z3_mk_bvadd_no_underflow(C(), a, b)));
    } else {
      r = a - b;
      o = !(B(Z3_mk_bvsub_no_overflow(C(), a, b)) &&
            B(Z3_mk_bvsub_no_underflow(C(), a, b, true)));
    }
    v.agg->push_back(Val(S(r)));
    v.agg->push_back(Val(S(o)));
    out = v;
    break;
  }
  case Intrinsic::usub_sat: {
    E a = A(0), b = A(1);
    out = Val(S(z3::ite(z3::ult(a, b), bv(0, a.get_sort().bv_size()), a - b)));
    break;
  }
  case Intrinsic::ctlz: {
    E a = A(0);
    unsigned w = a.get_sort().bv_size();
    E r = bv(w, w);
    for (unsigned i = 0; i < w; ++i)
      r = z3::ite(ex(a, i, i) == bv(1, 1), bv(w - 1 - i, w), r);
    out = Val(S(r));
    break;
  }
  case Intrinsic::cttz: {
    E a = A(0);
    unsigned w = a.get_sort().bv_size();
    E r = bv(w, w);
    for (int i = (int)w - 1; i >= 0; --i)
      r = z3::ite(ex(a, i, i) == bv(1, 1), bv(i, w), r);
    out = Val(S(r));
    break;
  }
  case Intrinsic::vastart:
  case Intrinsic::vaend:
    throw Unsupported{"variadic function body"};
  default:
    throw Unsupported{"intrinsic " + ii->getCalledFunction()->getName().str()};
  }
  finishCall(s, cb, out);
  return true;
}

static set<string> g_noInline;
static void doCall(State &s, CallBase *cb) {
  if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
    doIntrinsic(s, cb, ii);
    return;
  }
  if (cb->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty()) {
      finishCall(s, cb, Val(bv(0)));
      return;
    }
    throw Unsupported{"inline assembly"};
  }
  Function *F = nullptr;
  auto *op = cb->getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(op))
    F = dyn_cast<Function>(ga->getAliaseeObject());
  else
    F = dyn_cast<Function>(op);
  if (!F) {
    Ref r = resolve(s, getE(s, cb->getCalledOperand()));
    if (r.null)
      failHere(s, "control", "call through a null function pointer");
    if (r.raw || !g_funcOf.count(r.id))
      failHere(s, "control", "call through an invalid function pointer");
    F = g_funcOf.at(r.id);
  }
  string name = F->getName().str();
  auto mi = g_models.find(name);
  Val out;
  if (mi != g_models.end()) {
    vector<Val> args;
    for (auto &a : cb->args())
      args.push_back(get(s, a));
    R.models.insert(dem(name));
    while (args.size() > mi->second->arg_size())
      args.pop_back();
    pushCall(s, cb, mi->second, args);
    return;
  }
  bool unw = false;
  if (F->isDeclaration() || name.rfind("__spec_", 0) == 0 ||
      name == "__clang_call_terminate") {
    if (doBuiltin(s, cb, name, out, unw)) {
      if (name.rfind("__spec_", 0) != 0 && name.rfind("__cxa", 0) != 0)
        R.models.insert(dem(name));
      if (!unw)
        finishCall(s, cb, out);
      return;
    }
    throw Unsupported{"no contract for external function " + dem(name) + " [" +
                      name + "]"};
  }
  vector<Val> args;
  for (auto &a : cb->args())
    args.push_back(get(s, a));
  pushCall(s, cb, F, args);
}

// ---------------------------------------------------------------- driver
static void runContract(Function *F) {
  State s;
  vector<Function *> todo;
  // global constructors of the module run first
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &o : ca->operands())
          if (auto *cs = dyn_cast<ConstantStruct>(o))
            if (auto *f = dyn_cast<Function>(cs->getOperand(1)))
              todo.push_back(f);
  todo.push_back(F);
  auto call = [&](State &st, Function *G, vector<State> &done) {
    auto f = std::make_shared<Frame>();
    f->F = G;
    f->bb = &G->getEntryBlock();
    f->it = f->bb->begin();
    f->slots.resize(idxOf(G).size());
    st.st.push_back(f);
    st.finished = false;
    std::deque<State> w;
    w.push_back(st);
    explore(w, done, 0, nullptr);
  };
  for (size_t i = 0; i + 1 < todo.size(); ++i) {
    vector<State> done;
    call(s, todo[i], done);
    if (done.size() != 1)
      throw Unsupported{"global constructor " + todo[i]->getName().str()};
    s = done[0];
    s.st.clear();
  }
  R.obligations = R.discharged = R.trivial = R.smt = R.ext = 0;
  R.kinds.clear();
  R.paths = 0;
  R.repoFns.clear();
  R.lines.clear();
  vector<State> done;
  call(s, F, done);
  bool live = false;
  for (auto &d : done) {
    if (d.unwinding) {
      d.unwinding = false;
      // report an escaping exception as a violated exceptional postcondition
      auto f = std::make_shared<Frame>();
      f->F = F;
      f->bb = &F->getEntryBlock();
      f->it = f->bb->begin();
      f->slots.resize(idxOf(F).size());
      d.st.push_back(f);
      try {
        prove(d, Fa(), "exception",
              "no exception of type " + dem(d.cur.type) + " escapes");
      } catch (PathEnd &) {
      }
      continue;
    }
    ++R.ended;
    if (!live) {
      vector<E> as = d.pc;
      if (check(as, d.facts, g_query_ms).r != z3::unsat)
        live = true;
    }
  }
  if (!live && R.fails.empty() && done.size() != 0)
    R.undecided.push_back("vacuous: no feasible path reaches the end");
  if (done.empty() && R.fails.empty())
    R.undecided.push_back("vacuous: no path reaches the end");
}

static void output(const string &file) {
  std::ostringstream o;
  auto arr = [&](const set<string> &v) {
    string r = "[";
    bool f = true;
    for (auto &x : v) {
      if (!f)
        r += ",";
      f = false;
      r += jstr(x);
    }
    return r + "]";
  };
  o << "{\"contract\":" << jstr(R.contract) << ",\"obligations\":" << R.obligations
    << ",\"discharged\":" << R.discharged << ",\"trivial\":" << R.trivial
    << ",\"smt\":" << R.smt << ",\"external\":" << R.ext
    << ",\"cross\":" << R.cross << ",\"cross_disagree\":" << R.crossDisagree
    << ",\"queries\":" << R.queries << ",\"solver_s\":" << R.solverTime
    << ",\"paths\":" << R.paths << ",\"ended\":" << R.ended
    << ",\"loop_invariants\":" << R.loopInv;
  o << ",\"kinds\":{";
  bool f = true;
  for (auto &k : R.kinds) {
    o << (f ? "" : ",") << jstr(k.first) << ":" << k.second;
    f = false;
  }
  o << "},\"repo_functions\":" << arr(R.repoFns) << ",\"models\":" << arr(R.models)
    << ",\"loops_by_invariant\":" << arr(R.summarised)
    << ",\"loops_bounded\":" << arr(R.bounded)
    << ",\"covers\":" << arr(R.coversSeen);
  set<string> und(R.undecided.begin(), R.undecided.end());
  o << ",\"undecided\":" << arr(und);
  o << ",\"lines\":{";
  f = true;
  for (auto &k : R.lines) {
    o << (f ? "" : ",") << jstr(k.first) << ":[";
    bool g = true;
    for (auto x : k.second) {
      o << (g ? "" : ",") << x;
      g = false;
    }
    o << "]";
    f = false;
  }
  o << "},\"error\":" << (R.error ? jstr(R.errorMsg) : string("null"));
  o << ",\"failures\":[";
  f = true;
  for (auto &x : R.fails) {
    o << (f ? "" : ",") << "{\"kind\":" << jstr(x.kind) << ",\"msg\":" << jstr(x.msg)
      << ",\"loc\":" << jstr(x.loc) << ",\"verdict\":" << jstr(x.verdict)
      << ",\"facts\":" << (x.hadFacts ? "true" : "false")
      << ",\"replay\":" << jstr(x.replay) << ",\"stack\":[";
    bool g = true;
    for (auto &y : x.stack) {
      o << (g ? "" : ",") << jstr(y);
      g = false;
    }
    o << "]}";
    f = false;
  }
  o << "]}\n";
  if (file.empty())
    std::cout << o.str();
  else {
    std::ofstream os(file);
    os << o.str();
  }
}

int main(int argc, char **argv) {
  string in, contract, out;
  bool list = false;
  double budget = 200;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--contract")
      contract = argv[++i];
    else if (a == "--out")
      out = argv[++i];
    else if (a == "--list")
      list = true;
    else if (a == "--budget")
      budget = atof(argv[++i]);
    else if (a == "--repo")
      g_repoRoot = argv[++i];
    else if (a == "--work")
      g_workdir = argv[++i];
    else if (a == "--cross")
      g_crosscheck = true;
    else if (a == "--query-ms")
      g_query_ms = atoi(argv[++i]);
    else if (a == "--ext-secs")
      g_ext_secs = atoi(argv[++i]);
    else if (a == "--bound")
      g_bounded_unroll = atoi(argv[++i]);
    else if (a == "--unroll")
      g_unroll_cap = atoi(argv[++i]);
    else if (a == "--max-paths")
      g_max_paths = atoi(argv[++i]);
    else if (a == "-v")
      ++g_verbose;
    else
      in = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(in, err, ctx);
  if (!mod) {
    err.print("vcgen", errs());
    return 2;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  if (list) {
    for (auto &f : *M)
      if (!f.isDeclaration() && f.getName().starts_with("contract__"))
        std::cout << f.getName().str() << "\n";
    return 0;
  }
  ZC = new z3::context();
  for (auto &f : *M)
    if (!f.isDeclaration() && f.getName().starts_with("__model_"))
      g_models[f.getName().str().substr(8)] = &f;
  // __modelp_X stands in for every function whose mangled name starts with X
  // (all instances of a template); it takes the leading arguments only
  for (auto &m : *M)
    if (!m.isDeclaration() && m.getName().starts_with("__modelp_"))
      for (auto &f : *M)
        if (f.getName().starts_with(m.getName().substr(9)))
          g_models[f.getName().str()] = &m;
  Function *F = M->getFunction(contract);
  if (!F || F->isDeclaration()) {
    fprintf(stderr, "no contract %s\n", contract.c_str());
    return 2;
  }
  g_deadline = now() + budget;
  R.contract = contract;
  for (int tries = 0; tries < 60; ++tries) {
    double st = R.solverTime;
    long q = R.queries;
    R = Report();
    R.contract = contract;
    R.solverTime = st;
    R.queries = q;
    g_steps = 0;
    try {
      runContract(F);
      break;
    } catch (Restart &r) {
      if (g_verbose)
        fprintf(stderr, "[restart: loop %s]\n", loopName(r.h).c_str());
      continue;
    } catch (Unsupported &u) {
      R.undecided.push_back("unsupported: " + u.what);
      break;
    } catch (Budget &b) {
      R.undecided.push_back("budget: " + b.what);
      break;
    } catch (z3::exception &e) {
      R.error = true;
      R.errorMsg = string("z3: ") + e.msg();
      break;
    } catch (std::exception &e) {
      R.error = true;
      R.errorMsg = string("exception: ") + e.what();
      break;
    }
  }
  output(out);
  fflush(stdout);
  _exit(0);
}
