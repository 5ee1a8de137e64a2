// sx: path-based symbolic executor for LLVM IR (whole-program bitcode produced by rustc).
// Path conditions and assertions are decided by Z3 (QF_BV).  Each feasible branch direction that the solver
// cannot refute becomes its own process (fork), bounded by a token pool.
#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;
uint32_t exprTZ(E e); uint32_t exprLZ(E e);

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<int> tokens; std::atomic<int> stop;
  std::atomic<uint64_t> ok, killed, panics, errors, hangs, forks, queries, qsat, qunsat, solverNs, insts, branches, bounded, maxDepth, asserts, observed, folded, paths;
  std::atomic<int> errLines, sampleLeft;
  std::atomic<uint32_t> cover[256];
};
static Shared *sh; static uint8_t *covBits; static size_t nCov;
static std::string outDir; static uint64_t maxInsts = 20000000; static int maxViol = 3; static uint64_t maxAlloc = 1 << 24; static int maxEnum = 4096;
static std::vector<uint64_t> params; static double tStart; static double maxTime = 600;
static std::string entryName; static int sampleEvery = 1; static uint64_t iteLimit = 4096; static int verbose = 0; static bool forkSelect = true;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
[[noreturn]] static void endPath();
static uint64_t pathInsts = 0;

// ---------------------------------------------------------------- values and memory
struct Val { E e; uint64_t c; };   // concrete (w<=64) iff !e
static inline Val C(uint64_t c) { return Val{nullptr, c}; }
static inline Val mkV(E e) { if (e->op == OConst && e->w <= 64) return Val{nullptr, e->c}; return Val{e, 0}; }
static inline E toE(const Val &v, uint32_t w) { return v.e ? v.e : mkC(w, v.c); }

struct Obj { uint64_t size; uint8_t *data; E *sym; bool freed, ro; uint8_t kind; E symSize; };
static std::vector<Obj *> objs;   // indexed by address >> 32
static const uint64_t FNID = 1;

static uint64_t newObj(uint64_t size, uint8_t kind) {
  Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->size = size; o->data = (uint8_t *)calloc(1, size ? size : 1); o->kind = kind;
  objs.push_back(o); return (uint64_t)(objs.size() - 1) << 32;
}

// ---------------------------------------------------------------- inputs, model, solver
struct Input { uint32_t w; E var; };
static std::vector<Input> inputs; static std::vector<uint64_t> model; static std::vector<Val> observations;
static uint64_t evalGen = 1;
static std::vector<E> pathCond; static size_t asserted = 0;
static Z3_context zc; static Z3_solver zs; static std::vector<Z3_ast> zvars;

static void evalE(E e);
static APInt evalBigOf(E e) { evalE(e); return e->w > 64 ? *e->evalBig : APInt(e->w, e->evalC); }
static void evalE(E e) {
  if (e->evalGen == evalGen) return;
  if (e->op == OConst) { if (e->w <= 64) e->evalC = e->c; else { delete e->evalBig; e->evalBig = new APInt(*e->big); } e->evalGen = evalGen; return; }
  if (e->op == OVar) { e->evalC = model[e->c] & maskw(e->w); e->evalGen = evalGen; return; }
  if (e->op == OIte) { evalE(e->a); E k = e->a->evalC ? e->b : e->d; evalE(k); if (e->w <= 64) e->evalC = k->evalC; else { delete e->evalBig; e->evalBig = new APInt(*k->evalBig); } e->evalGen = evalGen; return; }
  if (e->w <= 64 && e->a->w <= 64 && (!e->b || e->b->w <= 64)) {
    evalE(e->a); uint64_t x = e->a->evalC, y = 0; uint32_t w = e->a->w; if (e->b) { evalE(e->b); y = e->b->evalC; }
    uint64_t r, m = maskw(e->w);
    switch (e->op) {
    case OAdd: r = x + y; break; case OSub: r = x - y; break; case OMul: r = x * y; break;
    case OUDiv: r = y ? x / y : ~0ULL; break; case OURem: r = y ? x % y : x; break;
    case OAnd: r = x & y; break; case OOr: r = x | y; break; case OXor: r = x ^ y; break;
    case OShl: r = y >= w ? 0 : x << y; break; case OLShr: r = y >= w ? 0 : x >> y; break;
    case OAShr: r = (uint64_t)(sextw(x, w) >> (y >= w ? w - 1 : y)); break;
    case OEq: r = x == y; break; case OUlt: r = x < y; break; case OUle: r = x <= y; break;
    case OSlt: r = sextw(x, w) < sextw(y, w); break; case OSle: r = sextw(x, w) <= sextw(y, w); break;
    case ONot: r = !x; break; case OConcat: r = (x << e->b->w) | y; break;
    case OExtract: r = x >> e->c; break; case OZExt: r = x; break; case OSExt: r = (uint64_t)sextw(x, w); break;
    default: r = foldBin(e->op, APInt(w, x), APInt(w, y)).getZExtValue();
    }
    e->evalC = r & m; e->evalGen = evalGen; return;
  }
  APInt x = evalBigOf(e->a), y; if (e->b) y = evalBigOf(e->b);
  APInt r;
  switch (e->op) {
  case ONot: r = ~x; break; case OConcat: r = x.concat(y); break; case OExtract: r = x.extractBits(e->w, e->c); break;
  case OZExt: r = x.zext(e->w); break; case OSExt: r = x.sext(e->w); break; default: r = foldBin(e->op, x, y);
  }
  if (e->w <= 64) e->evalC = r.getZExtValue(); else { delete e->evalBig; e->evalBig = new APInt(r); }
  e->evalGen = evalGen;
}
static uint64_t evalU(E e) { evalE(e); return e->w <= 64 ? e->evalC : e->evalBig->getLoBits(64).zextOrTrunc(64).getZExtValue(); }
static uint64_t evalV(const Val &v) { return v.e ? evalU(v.e) : v.c; }

static Z3_ast z3of(E e);
// the context is reference counted: every temporary that must outlive the next API call is pinned
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_sort sortOf(uint32_t w) { static std::unordered_map<uint32_t, Z3_sort> m; auto &s = m[w];
  if (!s) { s = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, Z3_sort_to_ast(zc, s)); } return s; }
static Z3_ast bit(unsigned v) { static Z3_ast b[2]; if (!b[v]) b[v] = keep(Z3_mk_unsigned_int(zc, v, sortOf(1))); return b[v]; }
static Z3_ast z3bv(E e) { Z3_ast a = z3of(e); if (e->w != 1) return a;
  return keep(Z3_mk_ite(zc, a, bit(1), bit(0))); }
static Z3_ast z3rec(E e) {
  Z3_sort bv = e->w > 1 ? sortOf(e->w) : nullptr;
  switch (e->op) {
  case OConst: if (e->w == 1) return e->c ? Z3_mk_true(zc) : Z3_mk_false(zc);
    if (e->w <= 64) return Z3_mk_unsigned_int64(zc, e->c, bv);
    { SmallString<80> s; e->big->toStringUnsigned(s, 10); return Z3_mk_numeral(zc, s.c_str(), bv); }
  case OVar: { char b[32]; snprintf(b, 32, "v%lu", e->c); Z3_ast a = Z3_mk_const(zc, Z3_mk_string_symbol(zc, b), e->w == 1 ? Z3_mk_bool_sort(zc) : bv);
    return a; }
  case OAdd: return Z3_mk_bvadd(zc, z3of(e->a), z3of(e->b)); case OSub: return Z3_mk_bvsub(zc, z3of(e->a), z3of(e->b));
  case OMul: return Z3_mk_bvmul(zc, z3of(e->a), z3of(e->b)); case OUDiv: return Z3_mk_bvudiv(zc, z3of(e->a), z3of(e->b));
  case OSDiv: return Z3_mk_bvsdiv(zc, z3of(e->a), z3of(e->b)); case OURem: return Z3_mk_bvurem(zc, z3of(e->a), z3of(e->b));
  case OSRem: return Z3_mk_bvsrem(zc, z3of(e->a), z3of(e->b));
  case OAnd: if (e->w == 1) { Z3_ast x[2] = {z3of(e->a), z3of(e->b)}; return Z3_mk_and(zc, 2, x); } return Z3_mk_bvand(zc, z3of(e->a), z3of(e->b));
  case OOr: if (e->w == 1) { Z3_ast x[2] = {z3of(e->a), z3of(e->b)}; return Z3_mk_or(zc, 2, x); } return Z3_mk_bvor(zc, z3of(e->a), z3of(e->b));
  case OXor: if (e->w == 1) return Z3_mk_xor(zc, z3of(e->a), z3of(e->b)); return Z3_mk_bvxor(zc, z3of(e->a), z3of(e->b));
  case OShl: return Z3_mk_bvshl(zc, z3of(e->a), z3of(e->b)); case OLShr: return Z3_mk_bvlshr(zc, z3of(e->a), z3of(e->b));
  case OAShr: return Z3_mk_bvashr(zc, z3of(e->a), z3of(e->b));
  case OEq: return Z3_mk_eq(zc, z3of(e->a), z3of(e->b));
  case OUlt: return Z3_mk_bvult(zc, z3of(e->a), z3of(e->b)); case OUle: return Z3_mk_bvule(zc, z3of(e->a), z3of(e->b));
  case OSlt: return Z3_mk_bvslt(zc, z3of(e->a), z3of(e->b)); case OSle: return Z3_mk_bvsle(zc, z3of(e->a), z3of(e->b));
  case ONot: return Z3_mk_not(zc, z3of(e->a));
  case OIte: return Z3_mk_ite(zc, z3of(e->a), z3of(e->b), z3of(e->d));
  case OConcat: return Z3_mk_concat(zc, z3bv(e->a), z3bv(e->b));
  case OExtract: { Z3_ast x = Z3_mk_extract(zc, e->c + e->w - 1, e->c, z3bv(e->a)); if (e->w != 1) return x; keep(x);
    return Z3_mk_eq(zc, x, bit(1)); }
  case OZExt: return Z3_mk_zero_ext(zc, e->w - e->a->w, z3bv(e->a));
  case OSExt: return Z3_mk_sign_ext(zc, e->w - e->a->w, z3bv(e->a));
  }
  abort();
}
static Z3_ast z3of(E e) { if (!e->z3) { e->z3 = z3rec(e); Z3_inc_ref(zc, e->z3); } return e->z3; }

static void logErr(const std::string &m);
static std::vector<E> onSolver;   // one scope per asserted condition; the prefix shared with the previous path is kept
static void flushAsserts() {
  size_t k = 0; if (asserted) k = asserted; else { while (k < onSolver.size() && k < pathCond.size() && onSolver[k] == pathCond[k]) k++; if (onSolver.size() > k) { Z3_solver_pop(zc, zs, onSolver.size() - k); onSolver.resize(k); } }
  for (; k < pathCond.size(); k++) { Z3_solver_push(zc, zs); Z3_solver_assert(zc, zs, z3of(pathCond[k])); onSolver.push_back(pathCond[k]); }
  asserted = k;
}
static bool satWith(E cond, std::vector<uint64_t> *out) {
  flushAsserts();
  double t = now();
  Z3_solver_push(zc, zs); Z3_solver_assert(zc, zs, z3of(cond));
  Z3_lbool r = Z3_solver_check(zc, zs);
  sh->queries++;
  if (verbose > 1 && now() - t > 0.01) { fprintf(stderr, "slow %.3f pid %d %s\n", now() - t, getpid(), dumpE(cond, 10).c_str()); for (E c : pathCond) fprintf(stderr, "    pc %s\n", dumpE(c, 6).c_str()); }
  if (r == Z3_L_TRUE && out) {
    Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m); out->assign(inputs.size(), 0);
    for (size_t i = 0; i < inputs.size(); i++) {
      E v = inputs[i].var; if (!v->z3) continue;
      Z3_ast a = Z3_model_get_const_interp(zc, m, Z3_get_app_decl(zc, Z3_to_app(zc, v->z3)));
      if (!a) continue;
      if (v->w == 1) (*out)[i] = Z3_get_bool_value(zc, a) == Z3_L_TRUE;
      else { uint64_t x = 0; Z3_get_numeral_uint64(zc, a, (uint64_t *)&x); (*out)[i] = x; }
    }
    Z3_model_dec_ref(zc, m);
  }
  Z3_solver_pop(zc, zs, 1);
  sh->solverNs += (uint64_t)((now() - t) * 1e9);
  if (r == Z3_L_UNDEF) { logErr("solver returned unknown"); sh->errors++; endPath(); }
  if (r == Z3_L_TRUE) sh->qsat++; else sh->qunsat++;
  return r == Z3_L_TRUE;
}
static void setModel(std::vector<uint64_t> &m) { model.swap(m); evalGen++; }
static E newInput(uint32_t w) { E v = mkVar(w, inputs.size()); inputs.push_back({w, v}); if (model.size() < inputs.size()) model.push_back(0); return v; }

// ---------------------------------------------------------------- reporting
static void appendFile(const char *name, const std::string &line) {
  std::string p = outDir + "/" + name; int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { std::string l = line + "\n"; (void)!write(fd, l.data(), l.size()); close(fd); }
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string inputsJson() {
  std::string r = "["; for (size_t i = 0; i < inputs.size(); i++) { char b[64]; snprintf(b, 64, "%s[%u,%lu]", i ? "," : "", inputs[i].w, model[i] & maskw(inputs[i].w)); r += b; } return r + "]"; }
static std::string stackTrace();
static void logErr(const std::string &m) { if (sh->errLines.fetch_add(1) < 40) appendFile("errors.log", m + " @ " + stackTrace()); }
static void report(const char *kind, const std::string &msg) {
  appendFile("violations.jsonl", std::string("{\"kind\":\"") + kind + "\",\"msg\":" + jstr(msg) + ",\"inputs\":" + inputsJson() + ",\"stack\":" + jstr(stackTrace()) + "}");
  if (sh->panics + sh->hangs >= (uint64_t)maxViol) sh->stop = 1;
}
struct PathEnd {};
[[noreturn]] static void endPath() { throw PathEnd(); }
[[noreturn]] static void fatal(const std::string &m) { logErr(m); sh->errors++; endPath(); }

// ---- exploration: depth-first re-execution.  A pending path is the list of decisions that leads to it and a model.
struct Dec { uint8_t dir; uint64_t val; };      // dir: 0/1 direction, +2 when the other direction is infeasible
struct Item { std::vector<Dec> trace; std::vector<uint64_t> model; };
static std::deque<Item> pending; static std::vector<Dec> trace; static size_t replayPos = 0, replayLen = 0;
static double lastSplit = 0; static bool isWorkerRoot = false;
static inline bool replaying() { return replayPos < replayLen; }
static void childInit() { signal(SIGTERM, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(0); lastSplit = now(); }
static void push(Item &&it) {
  sh->forks++; uint64_t d = sh->maxDepth, n = it.trace.size(); while (d < n && !sh->maxDepth.compare_exchange_weak(d, n)) {}
  pending.push_back(std::move(it));
  if (sh->tokens.load() <= 0 || now() - lastSplit < 0.01) return;
  int t = sh->tokens.load(); while (t > 0 && !sh->tokens.compare_exchange_weak(t, t - 1)) {}
  if (t <= 0) return;
  lastSplit = now();
  // hand the older half of the pending paths to a new worker
  size_t k = (pending.size() + 1) / 2;
  pid_t c = fork();
  if (c < 0) { sh->errors++; appendFile("errors.log", "fork failed"); sh->tokens++; return; }
  if (c == 0) { childInit(); pending.erase(pending.begin() + k, pending.end()); pathInsts = 0; throw PathEnd(); }
  pending.erase(pending.begin(), pending.begin() + k);
}
static void checkTime() { if (now() - tStart > maxTime) { if (!sh->stop.exchange(1)) { appendFile("errors.log", "time limit"); sh->errors++; } endPath(); } if (sh->stop) endPath(); }

// ---- facts implied by the path condition: equalities with constants (used as rewrites) and unsigned intervals
static std::unordered_map<E, E> facts; static std::unordered_map<E, std::pair<uint64_t, uint64_t>> ivals; static uint32_t factGen = 1;
static E simp(E e) {
  if (facts.empty() || e->op == OConst) return e;
  if (e->simpGen == factGen) return e->simpR;
  auto it = facts.find(e); E r = e;
  if (it != facts.end()) r = it->second;
  else if (e->op != OVar) {
    E a = e->a ? simp(e->a) : nullptr, b = e->b ? simp(e->b) : nullptr, d = e->d ? simp(e->d) : nullptr;
    if (a != e->a || b != e->b || d != e->d) {
      switch (e->op) {
      case ONot: r = mkNot(a); break; case OIte: r = mkIte(a, b, d); break; case OConcat: r = mkConcat(a, b); break;
      case OExtract: r = mkExtract(a, e->c, e->w); break; case OZExt: r = mkZExt(a, e->w); break; case OSExt: r = mkSExt(a, e->w); break;
      default: r = mkBin(e->op, a, b);
      }
      it = facts.find(r); if (it != facts.end()) r = it->second;
    }
  }
  e->simpGen = factGen; e->simpR = r; return r;
}
static Val simpV(const Val &v) { return v.e ? mkV(simp(v.e)) : v; }
struct Rng { uint64_t lo, hi; };
static Rng rangeOf(E e, int dep = 12) {
  if (e->w > 64) return {0, ~0ULL};
  uint64_t m = maskw(e->w); Rng r{0, m};
  if (e->op == OConst) return {e->c, e->c};
  if (e->rngGen == factGen) return {e->rlo, e->rhi};
  if (dep > 0) switch (e->op) {
  case OZExt: r = rangeOf(e->a, dep - 1); break;
  case OIte: { Rng x = rangeOf(e->b, dep - 1), y = rangeOf(e->d, dep - 1); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
  case OAdd: { Rng x = rangeOf(e->a, dep - 1), y = rangeOf(e->b, dep - 1);
    unsigned __int128 h = (unsigned __int128)x.hi + y.hi, l = (unsigned __int128)x.lo + y.lo;
    if (h <= m) r = {x.lo + y.lo, x.hi + y.hi}; else if (l > m && h <= (unsigned __int128)m * 2 + 1) r = {(x.lo + y.lo) & m, (x.hi + y.hi) & m}; break; }
  case OSub: { Rng x = rangeOf(e->a, dep - 1), y = rangeOf(e->b, dep - 1); if (x.lo >= y.hi) r = {x.lo - y.hi, x.hi - y.lo}; break; }
  case OConcat: { Rng x = rangeOf(e->a, dep - 1), y = rangeOf(e->b, dep - 1); uint32_t k = e->b->w; r = {(x.lo << k) | y.lo, (x.hi << k) | y.hi}; break; }
  case OUDiv: { Rng x = rangeOf(e->a, dep - 1); if (isC(e->b) && e->b->c) r = {x.lo / e->b->c, x.hi / e->b->c}; break; }
  case OURem: if (isC(e->b) && e->b->c) r = {0, e->b->c - 1}; break;
  case OAnd: { Rng x = rangeOf(e->a, dep - 1), y = rangeOf(e->b, dep - 1); r = {0, std::min(x.hi, y.hi)}; break; }
  default: break;
  }
  auto it = ivals.find(e); if (it != ivals.end()) { r.lo = std::max(r.lo, it->second.first); r.hi = std::min(r.hi, it->second.second); if (r.lo > r.hi) r = {it->second.first, it->second.second}; }
  if (dep == 12) { e->rngGen = factGen; e->rlo = r.lo; e->rhi = r.hi; }
  return r;
}
static int tri(E c) {       // 0 false, 1 true, -1 unknown, from intervals alone
  if (isC(c)) return c->c;
  switch (c->op) {
  case ONot: { int t = tri(c->a); return t < 0 ? t : !t; }
  case OAnd: { int x = tri(c->a); if (x == 0) return 0; int y = tri(c->b); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
  case OOr: { int x = tri(c->a); if (x == 1) return 1; int y = tri(c->b); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
  case OUlt: { if (c->a->w > 64) return -1; Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return -1; }
  case OUle: { if (c->a->w > 64) return -1; Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return -1; }
  case OEq: { if (c->a->w > 64) return -1; Rng x = rangeOf(c->a), y = rangeOf(c->b); if (x.hi < y.lo || y.hi < x.lo) return 0; if (x.lo == x.hi && y.lo == y.hi) return x.lo == y.lo; return -1; }
  default: return -1;
  }
}
static void setIval(E x, uint64_t lo, uint64_t hi) {
  if (x->w > 64) return;
  auto it = ivals.find(x); if (it != ivals.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
  if (lo > hi) return;
  ivals[x] = {lo, hi}; factGen++;
  if (lo == hi) facts[x] = mkC(x->w, lo);
  if (x->op == OZExt && lo <= maskw(x->a->w)) setIval(x->a, lo, std::min(hi, maskw(x->a->w)));
}
static void learn(E c, bool val) {
  if (isC(c)) return;
  if (c->op == ONot) return learn(c->a, !val);
  facts[c] = mkC(1, val); factGen++;
  if (c->op == OAnd && c->w == 1 && val) { learn(c->a, true); learn(c->b, true); }
  if (c->op == OOr && c->w == 1 && !val) { learn(c->a, false); learn(c->b, false); }
  if (c->op == OEq && c->a->w <= 64) {
    if (val && isC(c->b)) { facts[c->a] = c->b; setIval(c->a, c->b->c, c->b->c); }
    if (!val && isC(c->b)) { Rng r = rangeOf(c->a); if (r.lo == c->b->c && r.hi > r.lo) setIval(c->a, r.lo + 1, r.hi); else if (r.hi == c->b->c && r.hi > r.lo) setIval(c->a, r.lo, r.hi - 1); }
  }
  if ((c->op == OUlt || c->op == OUle) && c->a->w <= 64) {
    uint64_t m = maskw(c->a->w); bool strict = c->op == OUlt; E x = c->a, y = c->b;
    if (!val) { std::swap(x, y); strict = !strict; }      // x < y or x <= y holds
    Rng rx = rangeOf(x), ry = rangeOf(y);
    if (!isC(x) && (!strict || ry.hi)) setIval(x, 0, strict ? ry.hi - 1 : ry.hi);
    if (!isC(y) && (!strict || rx.lo < m)) setIval(y, strict ? rx.lo + 1 : rx.lo, m);
  }
}
static void addCond(E c) { if (!isC(c)) { pathCond.push_back(c); learn(c, true); } }
static bool decide(E c) {          // branch on a boolean; returns the direction this path takes
  c = simp(c);
  if (isC(c)) return c->c;
  { int t = tri(c); if (t >= 0) { sh->folded++; return t; } }
  if (replaying()) { Dec d = trace[replayPos++]; bool dir = d.dir & 1; E h = dir ? c : mkNot(c); if (d.dir & 2) learn(h, true); else addCond(h); return dir; }
  sh->branches++;
  if ((sh->branches & 63) == 0) checkTime();
  bool cur = evalU(c);
  E other = cur ? mkNot(c) : c;
  std::vector<uint64_t> m;
  if (!satWith(other, &m)) { trace.push_back({(uint8_t)(cur | 2), 0}); replayPos = replayLen = trace.size(); learn(cur ? c : mkNot(c), true); return cur; }
  Item it; it.trace = trace; it.trace.push_back({(uint8_t)!cur, 0}); it.model = std::move(m);
  trace.push_back({(uint8_t)cur, 0}); replayPos = replayLen = trace.size(); addCond(cur ? c : mkNot(c));
  push(std::move(it));
  return cur;
}
static bool mustBe(E c) { c = simp(c); if (isC(c)) return c->c; if (!evalU(c)) return false; return !satWith(mkNot(c), nullptr); }
static uint64_t concretize(const Val &v0, uint32_t w) {
  Val v = simpV(v0);
  for (int n = 0;; n++) {
    if (!v.e) return v.c;
    if (n) { v = simpV(v); if (!v.e) return v.c; }
    { Rng r = rangeOf(v.e); if (v.e->w <= 64 && r.lo == r.hi) return r.lo; }
    if (replaying()) { Dec d = trace[replayPos++]; E eq = mkEq(v.e, mkC(w, d.val)); if (d.dir & 2) { learn(eq, true); return d.val; } if (d.dir) { addCond(eq); return d.val; } addCond(mkNot(eq)); continue; }
    uint64_t m = evalU(v.e); E eq = mkEq(v.e, mkC(w, m));
    if (isC(eq)) return m;
    std::vector<uint64_t> nm; sh->branches++; if ((sh->branches & 63) == 0) checkTime();
    if (!satWith(mkNot(eq), &nm)) { trace.push_back({3, m}); replayPos = replayLen = trace.size(); learn(eq, true); return m; }
    if (n > maxEnum) fatal("too many values in concretization: " + dumpE(v.e));
    Item it; it.trace = trace; it.trace.push_back({0, m}); it.model = std::move(nm);
    trace.push_back({1, m}); replayPos = replayLen = trace.size(); addCond(eq);
    push(std::move(it)); return m;
  }
}
static void assume(const Val &v0) {
  Val v = simpV(v0);
  if (!v.e) { if (!(v.c & 1)) { sh->killed++; endPath(); } return; }
  if (replaying()) { addCond(v.e); return; }
  if (evalU(v.e)) { addCond(v.e); return; }
  std::vector<uint64_t> m; if (!satWith(v.e, &m)) { sh->killed++; endPath(); }
  addCond(v.e); setModel(m);
}

// ---------------------------------------------------------------- memory access
[[noreturn]] static void memErr(const char *what, uint64_t addr, uint64_t n) {
  char b[128]; snprintf(b, 128, "%s: addr=%lx size=%lu", what, addr, n);
  sh->panics++; report("memory", b); endPath();
}
static Obj *findObj(uint64_t addr, uint64_t n, bool wr) {
  uint64_t id = addr >> 32, off = addr & 0xffffffff;
  if (id < 2 || id >= objs.size()) memErr("access to unmapped address", addr, n);
  Obj *o = objs[id];
  if (o->freed) memErr("use after free", addr, n);
  if (off + n > o->size) { if (o->symSize) { sh->bounded++; endPath(); } memErr("out of bounds access", addr, n); }
  if (wr && o->ro) memErr("write to constant", addr, n);
  return o;
}
static Val readC(Obj *o, uint64_t off, uint32_t bytes, uint32_t w) {
  if (o->sym) {
    bool any = false; for (uint32_t i = 0; i < bytes; i++) if (o->sym[off + i]) { any = true; break; }
    if (any) {
      E r = nullptr;
      for (uint32_t i = 0; i < bytes; i++) { E b = o->sym[off + i] ? o->sym[off + i] : mkC(8, o->data[off + i]); r = r ? mkConcat(b, r) : b; }
      if (w < r->w) r = mkTrunc(r, w);
      return mkV(r);
    }
  }
  if (w <= 64) { uint64_t v = 0; memcpy(&v, o->data + off, bytes < 8 ? bytes : 8); return C(v & maskw(w)); }
  std::vector<uint64_t> ws((bytes + 7) / 8, 0); memcpy(ws.data(), o->data + off, bytes);
  APInt a(bytes * 8, ArrayRef<uint64_t>(ws)); return Val{mkBig(a.trunc(w)), 0};
}
static void writeC(Obj *o, uint64_t off, uint32_t bytes, uint32_t w, const Val &v) {
  if (!v.e) { if (o->sym) for (uint32_t i = 0; i < bytes; i++) o->sym[off + i] = nullptr; uint64_t x = v.c;
    if (bytes <= 8) memcpy(o->data + off, &x, bytes); else { memset(o->data + off, 0, bytes); memcpy(o->data + off, &x, 8); } return; }
  E e = v.e;
  if (isC(e)) { APInt a = constOf(e).zextOrTrunc(bytes * 8); if (o->sym) for (uint32_t i = 0; i < bytes; i++) o->sym[off + i] = nullptr; memcpy(o->data + off, a.getRawData(), bytes); return; }
  if (w < bytes * 8) e = mkZExt(e, bytes * 8);
  if (!o->sym) o->sym = (E *)calloc(o->size, sizeof(E));
  for (uint32_t i = 0; i < bytes; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
// does the expression select between alternatives?  (an address computed by earlier branch-free decisions)
static bool hasIte(E e, int &budget) {
  if (budget-- <= 0) return true;
  if (e->op == OIte) return true;
  for (E k : {e->a, e->b, e->d}) if (k && hasIte(k, budget)) return true;
  return false;
}
static Val load(const Val &addr0, uint32_t bytes, uint32_t w) {
  Val addr = simpV(addr0);
  if (!addr.e) { Obj *o = findObj(addr.c, bytes, false); return readC(o, addr.c & 0xffffffff, bytes, w); }
  // symbolic address
  while (true) {
    uint64_t m;   // the object picked by the model is part of the decision trace
    if (replaying()) m = trace[replayPos++].val; else { m = evalU(addr.e); trace.push_back({4, m}); replayPos = replayLen = trace.size(); }
    uint64_t id = m >> 32;
    if (id < 2 || id >= objs.size()) memErr("access to unmapped symbolic address", m, bytes);
    Obj *o = objs[id]; uint64_t base = id << 32;
    if (o->freed) memErr("use after free", m, bytes);
    if ((m & 0xffffffff) + bytes > o->size) memErr("out of bounds access (symbolic)", m, bytes);
    E off = mkBin(OSub, addr.e, mkC(64, base));
    E in = mkUle(off, mkC(64, o->size - bytes));
    if (!decide(in)) continue;
    uint32_t tzb = std::min(exprTZ(off), 12u); uint64_t stride = 1ULL << tzb;
    uint64_t lim = o->size - bytes; uint32_t z = exprLZ(off); if (z > 0 && z < 64) lim = std::min(lim, maskw(64 - z));
    if (lim / stride + 1 > iteLimit) { uint64_t a = concretize(addr, 64); return load(C(a), bytes, w); }
    // group offsets by value
    std::vector<std::pair<E, std::vector<uint64_t>>> groups; std::unordered_map<E, size_t> gi;
    for (uint64_t k = 0; k <= lim; k += stride) { Val v = readC(o, k, bytes, w); E e = toE(v, w); auto it = gi.find(e); if (it == gi.end()) { gi[e] = groups.size(); groups.push_back({e, {k}}); } else groups[it->second].second.push_back(k); }
    { int bud = 400; if (groups.size() > 2 && hasIte(off, bud)) { uint64_t a = concretize(addr, 64); return load(C(a), bytes, w); } }
    size_t big = 0; for (size_t i = 0; i < groups.size(); i++) if (groups[i].second.size() > groups[big].second.size()) big = i;
    E r = groups[big].first;
    for (size_t i = 0; i < groups.size(); i++) { if (i == big) continue;
      E c = nullptr; auto &ks = groups[i].second;
      for (size_t j = 0; j < ks.size();) { size_t l = j; while (l + 1 < ks.size() && ks[l + 1] == ks[l] + stride) l++;
        E t = l == j ? mkEq(off, mkC(64, ks[j])) : mkAndB(mkUle(mkC(64, ks[j]), off), mkUle(off, mkC(64, ks[l])));
        c = c ? mkOrB(c, t) : t; j = l + 1; }
      r = mkIte(c, groups[i].first, r); }
    return mkV(r);
  }
}
static void store(const Val &addr, uint32_t bytes, uint32_t w, const Val &v) {
  uint64_t a = concretize(addr, 64);
  Obj *o = findObj(a, bytes, true); writeC(o, a & 0xffffffff, bytes, w, v);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; Obj *so = findObj(s, n, false), *dd = findObj(d, n, true); uint64_t sf = s & 0xffffffff, df = d & 0xffffffff;
  memmove(dd->data + df, so->data + sf, n);
  if (so->sym) { if (!dd->sym) dd->sym = (E *)calloc(dd->size, sizeof(E)); memmove(dd->sym + df, so->sym + sf, n * sizeof(E)); }
  else if (dd->sym) memset(dd->sym + df, 0, n * sizeof(E));
}
static uint64_t allocate(const Val &sz, bool) {
  static const uint64_t LIMIT = 6ull << 30;   // the replay runs under this address-space limit
  auto tooBig = [] { sh->panics++; report("memory", "allocation of more than 6 GiB requested"); endPath(); };
  if (!sz.e) { if (sz.c > LIMIT) tooBig(); if (sz.c > maxAlloc) { sh->bounded++; endPath(); } return newObj(sz.c, 1); }
  // symbolic size: backed with 4096 bytes (an access beyond them ends the path as outside the bounds)
  if (!decide(mkUle(sz.e, mkC(64, LIMIT)))) tooBig();
  uint64_t p = newObj(4096, 1); objs[p >> 32]->symSize = sz.e; return p;
}

// ---------------------------------------------------------------- decoded program
enum K : uint8_t { KBin, KICmp, KFCmp, KFBin, KCast, KLoad, KStore, KGep, KAlloca, KBr, KCondBr, KSwitch, KRet, KCall, KSelect, KCopy, KExtract, KInsert, KExtEl, KInsEl, KShuf, KUnreach, KFNeg, KAtomicRMW, KCmpXchg, KNop, KUnsup };
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct Leaf { uint32_t off, w, bytes; };
struct Inst {
  K k; uint8_t sub; uint16_t lanes; uint32_t w, w2; int dst; int n;      // n: flattened leaf count
  std::vector<int> ops; std::vector<Leaf> leaves; std::vector<std::pair<int, int64_t>> gep; int64_t cst = 0; std::vector<uint32_t> opw;
  std::vector<Edge> edges; std::vector<uint64_t> cases; Function *callee = nullptr; Instruction *I; uint32_t cov; int normal = -1; uint8_t flag = 0; int fnIdx = -1; int builtin = 0;
};
struct Fn { Function *F; std::vector<Inst> code; int nregs; std::vector<int> args; bool decl; std::string name, dem; int panicKind = 0; int builtin = 0; };
static std::vector<Fn> fns; static DenseMap<const Function *, int> fnOf; static DenseMap<const GlobalValue *, uint64_t> gaddr;
static std::vector<Val> consts;    // constant table; operand index -1-i
static DenseMap<const Constant *, int> constOfs;
static Module *M; static const DataLayout *DL;

static uint32_t scalarW(Type *t) {
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * scalarW(v->getElementType());
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80; if (t->isFP128Ty()) return 128;
  return 0;
}
static void leavesOf(Type *t, uint32_t off, std::vector<Leaf> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * sz, out); return; }
  if (t->isVoidTy()) return;
  out.push_back({off, scalarW(t), (uint32_t)DL->getTypeStoreSize(t)});
}
static int nLeaves(Type *t) { std::vector<Leaf> l; leavesOf(t, 0, l); return l.size(); }
static int leafIndex(Type *t, ArrayRef<unsigned> idx) {
  int r = 0; for (unsigned i : idx) {
    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += nLeaves(s->getElementType(j)); t = s->getElementType(i); }
    else { auto *a = cast<ArrayType>(t); r += i * nLeaves(a->getElementType()); t = a->getElementType(); } }
  return r;
}
// entries of relative lookup tables: (table, truncated difference) -> full difference (objects may be further apart than 32 bits)
static std::map<std::pair<uint64_t, uint32_t>, uint64_t> relDiff;
static void constVals(const Constant *c, std::vector<Val> &out);
static Val constScalar(const Constant *c) {
  uint32_t w = scalarW(c->getType());
  if (auto *ci = dyn_cast<ConstantInt>(c)) { return mkV(mkBig(ci->getValue())); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return mkV(mkBig(cf->getValueAPF().bitcastToAPInt()));
  if (isa<ConstantPointerNull>(c)) return C(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return mkV(mkBig(APInt(w ? w : 1, 0)));
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constScalar(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; return C(0); } return C(it->second); }
  if (auto *v = dyn_cast<ConstantDataVector>(c)) { E r = nullptr; for (unsigned i = 0; i < v->getNumElements(); i++) { Val x = constScalar(v->getElementAsConstant(i)); E e = toE(x, scalarW(v->getElementType())); r = r ? mkConcat(e, r) : e; } return mkV(r); }
  if (auto *v = dyn_cast<ConstantVector>(c)) { E r = nullptr; for (unsigned i = 0; i < v->getNumOperands(); i++) { E e = toE(constScalar(v->getOperand(i)), scalarW(v->getOperand(i)->getType())); r = r ? mkConcat(e, r) : e; } return mkV(r); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); Val b = constScalar(ce->getOperand(0)); return C(b.c + off.getSExtValue()); }
    case Instruction::PtrToInt: return C(constScalar(ce->getOperand(0)).c & maskw(w));
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
    case Instruction::Trunc: { uint64_t v = constScalar(ce->getOperand(0)).c; auto *su = dyn_cast<ConstantExpr>(ce->getOperand(0)); if (w == 32 && su && su->getOpcode() == Instruction::Sub) relDiff[{constScalar(su->getOperand(1)).c, (uint32_t)v}] = v; return C(v & maskw(w)); }
    case Instruction::ZExt: return constScalar(ce->getOperand(0));
    case Instruction::Add: return C((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskw(w));
    case Instruction::Sub: return C((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskw(w));
    case Instruction::ICmp: { Val x = constScalar(ce->getOperand(0)), y = constScalar(ce->getOperand(1)); return C(ce->getPredicate() == CmpInst::ICMP_EQ ? x.c == y.c : x.c != y.c); }
    default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n"; return C(0);
}
static void constVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
  } else out.push_back(constScalar(c));
}
static void initMem(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initMem(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) initMem(o, off + i * sz, c->getAggregateElement(i)); return; }
  Val v = constScalar(c); writeC(o, off, DL->getTypeStoreSize(t), scalarW(t), v);
}
static int constSlot(const Constant *c) {
  auto it = constOfs.find(c); if (it != constOfs.end()) return it->second;
  std::vector<Val> v; constVals(c, v); int base = consts.size(); for (auto &x : v) consts.push_back(x); int r = -1 - base; constOfs[c] = r; return r;
}
// operand: >=0 register, <0 constant -1-i (leaf j is op-j for constants, op+j for registers)
static inline int leafOp(int op, int j) { return op >= 0 ? op + j : op - j; }

enum BI { B_NONE, B_MALLOC = 1, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_BCMP, B_MEMCMP, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRLEN, B_ABORT, B_WRITE, B_GETENV, B_ERRNO,
  B_SXBYTES, B_SXANY, B_SXASSUME, B_SXCOVER, B_SXOBS, B_SXCONC, B_SXMODE, B_SXASSERT, B_RET0, B_INTR, B_PANIC, B_SXITE, B_SXPARAM, B_KEYS };
static const std::map<std::string, int> builtins = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_MEMALIGN}, {"bcmp", B_BCMP}, {"memcmp", B_MEMCMP},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"strlen", B_STRLEN}, {"abort", B_ABORT}, {"write", B_WRITE}, {"getenv", B_GETENV}, {"__errno_location", B_ERRNO},
  {"sx_bytes", B_SXBYTES}, {"sx_any", B_SXANY}, {"sx_assume", B_SXASSUME}, {"sx_cover", B_SXCOVER}, {"sx_observe", B_SXOBS}, {"sx_concretize", B_SXCONC}, {"sx_symbolic", B_SXMODE}, {"sx_assert", B_SXASSERT}, {"sx_ite", B_SXITE}, {"sx_param", B_SXPARAM}};

static void decodeFn(Fn &f, uint32_t &cov) {
  Function &F = *f.F; DenseMap<const Value *, int> slot; int n = 0;
  for (auto &a : F.args()) { f.args.push_back(n); slot[&a] = n; n += nLeaves(a.getType()); }
  for (auto &I : instructions(F)) { slot[&I] = n; if (!I.getType()->isVoidTy()) n += nLeaves(I.getType()); }
  auto op = [&](const Value *v) -> int { if (auto *c = dyn_cast<Constant>(v)) return constSlot(c); if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return constSlot(ConstantInt::get(Type::getInt1Ty(F.getContext()), 0)); return slot[v]; };
  DenseMap<const BasicBlock *, int> start; 
  int idx = 0; for (auto &B : F) { start[&B] = idx; for (auto &I : B) if (!isa<PHINode>(I)) idx++; }
  int tmpBase = n; int maxTmp = 0;
  auto edge = [&](BasicBlock *from, BasicBlock *to) { Edge e; e.target = start[to]; std::vector<std::pair<int, int>> cp;
    for (auto &P : to->phis()) { Value *v = P.getIncomingValueForBlock(from); int k = nLeaves(P.getType()), s = op(v), d = slot[&P]; for (int j = 0; j < k; j++) cp.push_back({d + j, leafOp(s, j)}); }
    // sequentialise through temporaries when a source is also a destination
    std::set<int> ds; for (auto &c : cp) ds.insert(c.first); bool conf = false; for (auto &c : cp) if (c.second >= 0 && ds.count(c.second) && c.first != c.second) conf = true;
    if (!conf) e.copies = cp; else { int t = 0; for (auto &c : cp) e.copies.push_back({tmpBase + t++, c.second}); t = 0; for (auto &c : cp) e.copies.push_back({c.first, tmpBase + t++}); maxTmp = std::max(maxTmp, (int)cp.size()); }
    return e; };
  for (auto &B : F) for (auto &I : B) {
    uint32_t cv = cov++;
    if (isa<PHINode>(I)) continue;
    Inst x; x.I = &I; x.cov = cv; x.dst = slot[&I]; x.k = KUnsup; x.sub = 0; x.lanes = 0; x.w2 = 0; x.n = I.getType()->isVoidTy() ? 0 : nLeaves(I.getType()); x.w = I.getType()->isVoidTy() ? 0 : scalarW(I.getType());
    if (auto *vt = dyn_cast<FixedVectorType>(I.getType())) x.lanes = vt->getNumElements();
    for (auto &o : I.operands()) { x.ops.push_back(op(o)); x.opw.push_back(scalarW(o->getType())); }
    switch (I.getOpcode()) {
    case Instruction::Add: x.k = KBin; x.sub = OAdd; break; case Instruction::Sub: x.k = KBin; x.sub = OSub; break; case Instruction::Mul: x.k = KBin; x.sub = OMul; break;
    case Instruction::UDiv: x.k = KBin; x.sub = OUDiv; break; case Instruction::SDiv: x.k = KBin; x.sub = OSDiv; break; case Instruction::URem: x.k = KBin; x.sub = OURem; break; case Instruction::SRem: x.k = KBin; x.sub = OSRem; break;
    case Instruction::And: x.k = KBin; x.sub = OAnd; break; case Instruction::Or: x.k = KBin; x.sub = OOr; break; case Instruction::Xor: x.k = KBin; x.sub = OXor; break;
    case Instruction::Shl: x.k = KBin; x.sub = OShl; break; case Instruction::LShr: x.k = KBin; x.sub = OLShr; break; case Instruction::AShr: x.k = KBin; x.sub = OAShr; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.k = KFBin; x.sub = I.getOpcode(); break;
    case Instruction::FNeg: x.k = KFNeg; break;
    case Instruction::ICmp: x.k = KICmp; x.sub = cast<ICmpInst>(I).getPredicate(); x.w2 = scalarW(I.getOperand(0)->getType()); break;
    case Instruction::FCmp: x.k = KFCmp; x.sub = cast<FCmpInst>(I).getPredicate(); x.w2 = scalarW(I.getOperand(0)->getType()); break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
      x.k = KCast; x.sub = I.getOpcode(); x.w2 = scalarW(I.getOperand(0)->getType()); break;
    case Instruction::Freeze: x.k = KCopy; break;
    case Instruction::Load: x.k = KLoad; leavesOf(I.getType(), 0, x.leaves); break;
    case Instruction::Store: x.k = KStore; leavesOf(I.getOperand(0)->getType(), 0, x.leaves); break;
    case Instruction::Fence: x.k = KNop; break;
    case Instruction::AtomicRMW: x.k = KAtomicRMW; x.sub = cast<AtomicRMWInst>(I).getOperation(); x.w2 = DL->getTypeStoreSize(I.getType()); break;
    case Instruction::AtomicCmpXchg: x.k = KCmpXchg; x.w = scalarW(I.getOperand(1)->getType()); x.w2 = DL->getTypeStoreSize(I.getOperand(1)->getType()); break;
    case Instruction::GetElementPtr: { x.k = KGep; auto &G = cast<GEPOperator>(I); int64_t off = 0; bool ok = !G.getType()->isVectorTy();
      for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti) { Value *iv = gti.getOperand();
        if (auto *st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
        else { int64_t sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(iv)) off += ci->getSExtValue() * sz; else { x.gep.push_back({op(iv), sz}); x.opw.push_back(scalarW(iv->getType())); } } }
      x.cst = off; if (!ok) x.k = KUnsup; 
      // widths of the gep indices
      { std::vector<uint32_t> ws; for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti) { Value *iv = gti.getOperand(); if (!gti.getStructTypeOrNull() && !isa<ConstantInt>(iv)) ws.push_back(scalarW(iv->getType())); } x.opw = ws; }
      break; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.k = KAlloca; x.cst = DL->getTypeAllocSize(A.getAllocatedType()); break; }
    case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isUnconditional()) { x.k = KBr; x.edges.push_back(edge(&B, Br.getSuccessor(0))); } else { x.k = KCondBr; x.ops[0] = op(Br.getCondition()); x.edges.push_back(edge(&B, Br.getSuccessor(0))); x.edges.push_back(edge(&B, Br.getSuccessor(1))); } break; }
    case Instruction::Switch: { auto &S = cast<SwitchInst>(I); x.k = KSwitch; x.ops[0] = op(S.getCondition()); x.w2 = scalarW(S.getCondition()->getType()); x.edges.push_back(edge(&B, S.getDefaultDest())); for (auto &c : S.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: x.k = KRet; x.n = I.getNumOperands() ? nLeaves(I.getOperand(0)->getType()) : 0; break;
    case Instruction::Unreachable: x.k = KUnreach; break;
    case Instruction::Select: x.k = KSelect; break;
    case Instruction::ExtractValue: { auto &EV = cast<ExtractValueInst>(I); x.k = KExtract; x.ops[0] = leafOp(op(EV.getAggregateOperand()), leafIndex(EV.getAggregateOperand()->getType(), EV.getIndices())); break; }
    case Instruction::InsertValue: { auto &IV = cast<InsertValueInst>(I); x.k = KInsert; x.cst = leafIndex(IV.getType(), IV.getIndices()); x.w2 = nLeaves(IV.getInsertedValueOperand()->getType()); break; }
    case Instruction::ExtractElement: x.k = KExtEl; break;
    case Instruction::InsertElement: x.k = KInsEl; x.w2 = scalarW(I.getOperand(1)->getType()); break;
    case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); x.k = KShuf; for (int m : S.getShuffleMask()) x.cases.push_back((uint64_t)(int64_t)m); x.w2 = scalarW(cast<FixedVectorType>(I.getOperand(0)->getType())->getElementType()); x.cst = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &Cb = cast<CallBase>(I); x.k = KCall; x.callee = dyn_cast<Function>(Cb.getCalledOperand()->stripPointerCasts());
      if (auto *al = dyn_cast<GlobalAlias>(Cb.getCalledOperand())) x.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
      x.ops.clear(); x.opw.clear(); for (auto &a : Cb.args()) { x.ops.push_back(op(a)); x.opw.push_back(scalarW(a->getType())); }
      x.w2 = 0; if (!x.callee) { x.cst = op(Cb.getCalledOperand()); }
      x.flag = isa<InlineAsm>(Cb.getCalledOperand());
      if (auto *Iv = dyn_cast<InvokeInst>(&I)) { x.normal = 1; x.edges.push_back(edge(&B, Iv->getNormalDest())); }
      if (x.callee && x.callee->isIntrinsic()) { x.builtin = B_INTR; x.sub = 0;
        switch (x.callee->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_assign: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: if (!I.hasNUses(0)) {} x.k = isa<InvokeInst>(I) ? KBr : KNop; break; default: break; } }
      // vararg args with aggregate leaves: flattened on call
      break; }
    case Instruction::LandingPad: case Instruction::Resume: x.k = KUnsup; break;
    default: x.k = KUnsup;
    }
    f.code.push_back(std::move(x));
  }
  f.nregs = tmpBase + maxTmp;
}

// ---------------------------------------------------------------- interpreter
struct Frame { int fn; int pc; Val *regs; size_t objMark; int retDst; };
static std::vector<Frame> stack; static Val *regTop, *regEnd; static std::vector<uint64_t> allocas;
static std::string locOf(const Instruction *I) {
  std::string r; if (auto D = I->getDebugLoc()) { for (const DILocation *L = D.get(); L; L = L->getInlinedAt()) { r += L->getFilename().str() + ":" + std::to_string(L->getLine()) + " "; } } return r; }
static std::string stackTrace() {
  std::string r; int n = 0; for (int i = (int)stack.size() - 1; i >= 0 && n < 14; i--, n++) { auto &f = fns[stack[i].fn]; int pc = std::min<int>(stack[i].pc, f.code.size() - 1); r += f.dem + " ["; if (pc >= 0 && !f.code.empty()) r += locOf(f.code[pc].I); r += "] <- "; } return r; }

static inline Val getv(Frame &fr, int op) { return op >= 0 ? fr.regs[op] : consts[-1 - op]; }
static std::string readStr(uint64_t p, uint64_t n) { std::string s; uint64_t id = p >> 32; if (id < 2 || id >= objs.size()) return s; Obj *o = objs[id]; uint64_t f = p & 0xffffffff; for (uint64_t i = 0; i < n && f + i < o->size && i < 300; i++) s += (o->sym && o->sym[f + i]) ? '?' : (char)o->data[f + i]; return s; }

static E laneOf(E v, uint32_t ew, uint32_t i) { return mkExtract(v, i * ew, ew); }
static E binE(Op op, E a, E b, uint32_t lanes) {
  if (!lanes) return mkBin(op, a, b);
  uint32_t ew = a->w / lanes; E r = nullptr; for (uint32_t i = 0; i < lanes; i++) { E x = mkBin(op, laneOf(a, ew, i), laneOf(b, ew, i)); r = r ? mkConcat(x, r) : x; } return r; }
static E icmpE(unsigned p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b);
  case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a); case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); default: return mkSle(b, a); } }
static E fcmpE(unsigned p, E a, E b) { // IEEE comparison on bit patterns
  uint32_t w = a->w; uint64_t inf = w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL;
  auto mag = [&](E x) { return mkZExt(mkExtract(x, 0, w - 1), w); };
  auto nan = [&](E x) { return mkUlt(mkC(w, inf), mag(x)); };
  E un = mkOrB(nan(a), nan(b)), ord = mkNot(un);
  E bothZero = mkAndB(mkEq(mag(a), mkC(w, 0)), mkEq(mag(b), mkC(w, 0)));
  E eq = mkAndB(ord, mkOrB(bothZero, mkEq(a, b)));
  auto key = [&](E x) { E s = mkExtract(x, w - 1, 1); return mkIte(s, mkBin(OSub, mkC(w, 0), mag(x)), x); };  // signed key
  E lt = mkAndB(ord, mkSlt(key(a), key(b))), gt = mkAndB(ord, mkSlt(key(b), key(a)));
  switch (p) { case CmpInst::FCMP_FALSE: return mkC(1, 0); case CmpInst::FCMP_TRUE: return mkC(1, 1); case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_UEQ: return mkOrB(un, eq);
  case CmpInst::FCMP_ONE: return mkAndB(ord, mkNot(eq)); case CmpInst::FCMP_UNE: return mkNot(eq); case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_ULT: return mkOrB(un, lt);
  case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_UGT: return mkOrB(un, gt); case CmpInst::FCMP_OLE: return mkOrB(lt, eq); case CmpInst::FCMP_ULE: return mkOrB(un, mkOrB(lt, eq));
  case CmpInst::FCMP_OGE: return mkOrB(gt, eq); case CmpInst::FCMP_UGE: return mkOrB(un, mkOrB(gt, eq)); case CmpInst::FCMP_ORD: return ord; default: return un; } }
static double asF(uint64_t c, uint32_t w) { if (w == 32) { float f; uint32_t x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromF(double d, uint32_t w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

static E popE(E a, uint32_t w) { E r = mkC(w, 0); for (uint32_t i = 0; i < a->w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(a, i, 1), w)); return r; }
static E ctlzE(E a) { uint32_t w = a->w; E r = mkC(w, w); for (uint32_t i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkC(w, w - 1 - i), r); return r; }
static E cttzE(E a) { uint32_t w = a->w; E r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkC(w, i), r); return r; }

static void memcmpOp(Frame &fr, Inst &x, bool ord, Val *res) {
  uint64_t a = 0, b = 0; uint64_t n = concretize(getv(fr, x.ops[2]), 64); if (!n) { *res = C(0); return; }
  a = concretize(getv(fr, x.ops[0]), 64); b = concretize(getv(fr, x.ops[1]), 64);
  Obj *p = findObj(a, n, false), *q = findObj(b, n, false); uint64_t pf = a & 0xffffffff, qf = b & 0xffffffff;
  auto by = [](Obj *o, uint64_t i) { return o->sym && o->sym[i] ? o->sym[i] : mkC(8, o->data[i]); };
  if (!p->sym && !q->sym) { int r = memcmp(p->data + pf, q->data + qf, n); *res = C((uint32_t)(r < 0 ? -1 : r > 0)); return; }
  if (!ord) { E eq = mkC(1, 1); for (uint64_t i = 0; i < n; i++) { E t = mkEq(by(p, pf + i), by(q, qf + i)); if (isZero(t)) { *res = C(1); return; } eq = mkAndB(eq, t); } *res = mkV(mkZExt(mkNot(eq), 32)); return; }
  E r = mkC(32, 0); for (int64_t i = n - 1; i >= 0; i--) { E u = by(p, pf + i), v = by(q, qf + i); E eq = mkEq(u, v); if (isOnes(eq)) continue; r = mkIte(eq, r, mkIte(mkUlt(u, v), mkC(32, ~0ULL), mkC(32, 1))); }
  *res = mkV(r);
}
static void memsetOp(uint64_t d, const Val &v, uint64_t n) { if (!n) return; Obj *o = findObj(d, n, true); uint64_t f = d & 0xffffffff;
  if (!v.e) { memset(o->data + f, (int)v.c, n); if (o->sym) memset(o->sym + f, 0, n * sizeof(E)); } else { if (!o->sym) o->sym = (E *)calloc(o->size, sizeof(E)); for (uint64_t i = 0; i < n; i++) o->sym[f + i] = v.e; } }

[[noreturn]] static void finishOk() {
  uint64_t k = sh->ok++;
  int left = sh->sampleLeft.load();
  if (left > 0 && (k % sampleEvery) == 0 && sh->sampleLeft.fetch_sub(1) > 0) {
    std::string ob = "["; for (size_t i = 0; i < observations.size(); i++) ob += (i ? "," : "") + std::to_string(evalV(observations[i])); ob += "]";
    appendFile("samples.jsonl", "{\"inputs\":" + inputsJson() + ",\"obs\":" + ob + "}"); }
  sh->observed += observations.size();
  endPath();
}

static bool intrinsic(Frame &fr, Inst &x) {
  auto id = x.callee->getIntrinsicID(); auto A = [&](int i) { return getv(fr, x.ops[i]); }; auto AE = [&](int i) { return toE(getv(fr, x.ops[i]), x.opw[i]); };
  uint32_t w = x.opw.empty() ? 0 : x.opw[0]; Val *d = fr.regs + x.dst;
  auto lanewise = [&](auto f) { uint32_t L = x.lanes; E a = AE(0), b = AE(1); if (!L) { *d = mkV(f(a, b)); return; } uint32_t ew = w / L; E r = nullptr; for (uint32_t i = 0; i < L; i++) { E y = f(laneOf(a, ew, i), laneOf(b, ew, i)); r = r ? mkConcat(y, r) : y; } *d = mkV(r); };
  auto lanewise1 = [&](auto f) { uint32_t L = x.lanes; E a = AE(0); if (!L) { *d = mkV(f(a)); return; } uint32_t ew = w / L; E r = nullptr; for (uint32_t i = 0; i < L; i++) { E y = f(laneOf(a, ew, i)); r = r ? mkConcat(y, r) : y; } *d = mkV(r); };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(A(2), 64); if (!n) return true; uint64_t dp = concretize(A(0), 64), sp = concretize(A(1), 64); copyMem(dp, sp, n); return true; }
  case Intrinsic::memset: { uint64_t n = concretize(A(2), 64); if (!n) return true; memsetOp(concretize(A(0), 64), A(1), n); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Val a = A(0), b = A(1);
    if (!a.e && !b.e && w <= 32) { uint64_t r, m = maskw(w); bool o; int64_t sa = sextw(a.c, w), sb = sextw(b.c, w), sr;
      switch (id) { case Intrinsic::uadd_with_overflow: r = a.c + b.c; o = r > m; break; case Intrinsic::usub_with_overflow: r = a.c - b.c; o = a.c < b.c; break; case Intrinsic::umul_with_overflow: r = a.c * b.c; o = r > m; break;
      case Intrinsic::sadd_with_overflow: sr = sa + sb; r = sr; o = sextw(sr & m, w) != sr; break; case Intrinsic::ssub_with_overflow: sr = sa - sb; r = sr; o = sextw(sr & m, w) != sr; break; default: sr = sa * sb; r = sr; o = sextw(sr & m, w) != sr; }
      d[0] = C(r & m); d[1] = C(o); return true; }
    if (!a.e && !b.e && w == 64) { uint64_t r; int64_t sr; bool o;
      switch (id) { case Intrinsic::uadd_with_overflow: o = __builtin_add_overflow(a.c, b.c, &r); break; case Intrinsic::usub_with_overflow: o = __builtin_sub_overflow(a.c, b.c, &r); break; case Intrinsic::umul_with_overflow: o = __builtin_mul_overflow(a.c, b.c, &r); break;
      case Intrinsic::sadd_with_overflow: o = __builtin_add_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; break; case Intrinsic::ssub_with_overflow: o = __builtin_sub_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; break; default: o = __builtin_mul_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; }
      d[0] = C(r); d[1] = C(o); return true; }
    E p = AE(0), q = AE(1), r, o;
    switch (id) {
    case Intrinsic::uadd_with_overflow: r = mkBin(OAdd, p, q); o = isC(q) ? mkUlt(mkNot(q), p) : mkUlt(r, p); break;
    case Intrinsic::usub_with_overflow: r = mkBin(OSub, p, q); o = mkUlt(p, q); break;
    case Intrinsic::umul_with_overflow: { r = mkBin(OMul, p, q); if (exprLZ(p) + exprLZ(q) >= w) o = mkC(1, 0); else { E wd = mkRaw(OMul, 2 * w, mkZExt(p, 2 * w), mkZExt(q, 2 * w)); if (isC(p) && isC(q)) wd = mkBin(OMul, mkZExt(p, 2 * w), mkZExt(q, 2 * w)); o = mkNot(mkEq(mkExtract(wd, w, w), mkC(w, 0))); } break; }
    default: { Op k = id == Intrinsic::sadd_with_overflow ? OAdd : id == Intrinsic::ssub_with_overflow ? OSub : OMul; uint32_t W = k == OMul ? 2 * w : w + 1; E wd = mkRaw(k, W, mkSExt(p, W), mkSExt(q, W)); if (isC(p) && isC(q)) wd = mkBin(k, mkSExt(p, W), mkSExt(q, W)); r = mkBin(k, p, q); o = mkNot(mkEq(mkSExt(r, W), wd)); } }
    d[0] = mkV(r); d[1] = mkV(o); return true; }
  case Intrinsic::umin: lanewise([](E a, E b) { return mkIte(mkUlt(a, b), a, b); }); return true;
  case Intrinsic::umax: lanewise([](E a, E b) { return mkIte(mkUlt(a, b), b, a); }); return true;
  case Intrinsic::smin: lanewise([](E a, E b) { return mkIte(mkSlt(a, b), a, b); }); return true;
  case Intrinsic::smax: lanewise([](E a, E b) { return mkIte(mkSlt(a, b), b, a); }); return true;
  case Intrinsic::uadd_sat: lanewise([](E a, E b) { E s = mkBin(OAdd, a, b); return mkIte(mkUlt(s, a), mkBig(APInt::getAllOnes(a->w)), s); }); return true;
  case Intrinsic::usub_sat: lanewise([](E a, E b) { return mkIte(mkUlt(a, b), mkC(a->w, 0), mkBin(OSub, a, b)); }); return true;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { Op k = id == Intrinsic::sadd_sat ? OAdd : OSub; lanewise([k](E a, E b) { uint32_t W = a->w + 1; E wd = mkBin(k, mkSExt(a, W), mkSExt(b, W)); E mx = mkBig(APInt::getSignedMaxValue(a->w)), mn = mkBig(APInt::getSignedMinValue(a->w)); return mkIte(mkSlt(mkSExt(mx, W), wd), mx, mkIte(mkSlt(wd, mkSExt(mn, W)), mn, mkTrunc(wd, a->w))); }); return true; }
  case Intrinsic::abs: lanewise1([](E a) { return mkIte(mkExtract(a, a->w - 1, 1), mkBin(OSub, mkC(a->w, 0), a), a); }); return true;
  case Intrinsic::ctpop: lanewise1([](E a) { if (isC(a)) return mkC(a->w, constOf(a).popcount()); return popE(a, a->w); }); return true;
  case Intrinsic::ctlz: lanewise1([](E a) { if (isC(a)) return mkC(a->w, constOf(a).countl_zero()); return ctlzE(a); }); return true;
  case Intrinsic::cttz: lanewise1([](E a) { if (isC(a)) return mkC(a->w, constOf(a).countr_zero()); return cttzE(a); }); return true;
  case Intrinsic::bswap: lanewise1([](E a) { E r = nullptr; for (uint32_t i = 0; i < a->w; i += 8) { E y = mkExtract(a, i, 8); r = r ? mkConcat(r, y) : y; } return r; }); return true;
  case Intrinsic::bitreverse: lanewise1([](E a) { E r = nullptr; for (uint32_t i = 0; i < a->w; i++) { E y = mkExtract(a, i, 1); r = r ? mkConcat(r, y) : y; } return r; }); return true;
  case Intrinsic::fshl: case Intrinsic::fshr: { if (x.lanes) return false; E a = AE(0), b = AE(1), s = AE(2); E c = mkConcat(a, b); E k = mkZExt(mkBin(OURem, s, mkC(w, w)), 2 * w); if (id == Intrinsic::fshl) *d = mkV(mkExtract(mkBin(OShl, c, k), w, w)); else *d = mkV(mkExtract(mkBin(OLShr, c, k), 0, w)); return true; }
  case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: *d = A(0); return true;
  case Intrinsic::ptrmask: *d = mkV(mkBin(OAnd, AE(0), AE(1))); return true;
  case Intrinsic::is_constant: *d = C(0); return true;
  case Intrinsic::objectsize: *d = C(maskw(x.w)); return true;
  case Intrinsic::load_relative: { Val p = A(0); uint64_t o = concretize(A(1), x.opw[1]); Val v = load(C(p.c + o), 4, 32); if (v.e) v = C(concretize(v, 32)); auto rd = relDiff.find({p.c, (uint32_t)v.c}); *d = C(p.c + (rd != relDiff.end() ? (int64_t)rd->second : (int64_t)(int32_t)v.c)); return true; }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_xor: { E a = AE(0); uint32_t ew = x.w; E r = laneOf(a, ew, 0); for (uint32_t i = 1; i < a->w / ew; i++) { E y = laneOf(a, ew, i); r = id == Intrinsic::vector_reduce_add ? mkBin(OAdd, r, y) : id == Intrinsic::vector_reduce_or ? mkBin(OOr, r, y) : id == Intrinsic::vector_reduce_and ? mkBin(OAnd, r, y) : id == Intrinsic::vector_reduce_xor ? mkBin(OXor, r, y) : mkIte(mkUlt(r, y), y, r); } *d = mkV(r); return true; }
  case Intrinsic::fabs: { E a = AE(0); *d = mkV(mkZExt(mkExtract(a, 0, w - 1), w)); return true; }
  case Intrinsic::is_fpclass: { E a = AE(0); uint64_t m = A(1).c; uint32_t fw = a->w, mb = fw == 32 ? 23 : 52, eb = fw - 1 - mb; E sg = mkExtract(a, fw - 1, 1), ex = mkExtract(a, mb, eb), mt = mkExtract(a, 0, mb);
    E e0 = mkEq(ex, mkC(eb, 0)), e1 = mkEq(ex, mkC(eb, maskw(eb))), m0 = mkEq(mt, mkC(mb, 0)), q = mkExtract(mt, mb - 1, 1), ng = sg, ps = mkNot(sg), r = mkC(1, 0); E nan = mkAndB(e1, mkNot(m0)), fin = mkAndB(mkNot(e0), mkNot(e1));
    E cls[10] = {mkAndB(nan, mkNot(q)), mkAndB(nan, q), mkAndB(ng, mkAndB(e1, m0)), mkAndB(ng, fin), mkAndB(ng, mkAndB(e0, mkNot(m0))), mkAndB(ng, mkAndB(e0, m0)), mkAndB(ps, mkAndB(e0, m0)), mkAndB(ps, mkAndB(e0, mkNot(m0))), mkAndB(ps, fin), mkAndB(ps, mkAndB(e1, m0))};
    for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkOrB(r, cls[i]); *d = mkV(r); return true; }
  case Intrinsic::trap: { sh->panics++; report("trap", "llvm.trap"); endPath(); }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::sqrt: { Val a = A(0); if (a.e) return false; double v = asF(a.c, w); v = id == Intrinsic::floor ? floor(v) : id == Intrinsic::ceil ? ceil(v) : id == Intrinsic::trunc ? trunc(v) : id == Intrinsic::rint ? rint(v) : id == Intrinsic::round ? round(v) : sqrt(v); *d = C(fromF(v, w)); return true; }
  case Intrinsic::fptoui_sat: case Intrinsic::fptosi_sat: { Val a = A(0); if (a.e) return false; double v = asF(a.c, w); APInt r(x.w, 0); bool sg = id == Intrinsic::fptosi_sat; if (v == v) { double lo = sg ? -ldexp(1.0, x.w - 1) : 0, hi = sg ? ldexp(1.0, x.w - 1) : ldexp(1.0, x.w); if (v <= lo) r = sg ? APInt::getSignedMinValue(x.w) : APInt(x.w, 0); else if (v >= hi) r = sg ? APInt::getSignedMaxValue(x.w) : APInt::getAllOnes(x.w); else r = sg ? APInt(x.w, (uint64_t)(int64_t)v, true) : APInt(x.w, (uint64_t)v); } *d = mkV(mkBig(r)); return true; }
  default: return false;
  }
}

static uint64_t errnoObj = 0;
static bool call(Frame &fr, Inst &x, Fn &fn, int bi) {   // builtin call; returns false if unsupported
  auto A = [&](int i) { return getv(fr, x.ops[i]); }; Val *d = fr.regs + x.dst;
  switch (bi) {
  case B_MALLOC: *d = C(allocate(A(0), false)); return true;
  case B_CALLOC: { Val n = A(0), s = A(1); Val t; if (!n.e && !s.e) t = C(n.c * s.c); else t = mkV(mkBin(OMul, toE(n, 64), toE(s, 64))); *d = C(allocate(t, true)); return true; }
  case B_MEMALIGN: { uint64_t p = allocate(A(2), false); store(A(0), 8, 64, C(p)); *d = C(0); return true; }
  case B_REALLOC: { Val p = A(0); uint64_t q = allocate(A(1), false); uint64_t pc = concretize(p, 64); if (pc) { Obj *o = findObj(pc, 0, true); uint64_t n = std::min(o->size, objs[q >> 32]->size); copyMem(q, pc, n); o->freed = true; } *d = C(q); return true; }
  case B_FREE: { uint64_t p = concretize(A(0), 64); if (!p) return true; Obj *o = findObj(p, 0, true); if (p & 0xffffffff) memErr("free of interior pointer", p, 0); o->freed = true; free(o->data); o->data = nullptr; free(o->sym); o->sym = nullptr; return true; }
  case B_BCMP: memcmpOp(fr, x, false, d); return true;
  case B_MEMCMP: memcmpOp(fr, x, true, d); return true;
  case B_MEMCPY: case B_MEMMOVE: { uint64_t n = concretize(A(2), 64); *d = A(0); if (n) copyMem(concretize(A(0), 64), concretize(A(1), 64), n); return true; }
  case B_MEMSET: { uint64_t n = concretize(A(2), 64); *d = A(0); Val v = A(1); if (v.e) v = mkV(mkTrunc(v.e, 8)); if (n) memsetOp(concretize(A(0), 64), v, n); return true; }
  case B_STRLEN: { uint64_t p = concretize(A(0), 64), n = 0; while (true) { Val v = load(C(p + n), 1, 8); if (v.e ? !decide(mkNot(mkEq(v.e, mkC(8, 0)))) : v.c == 0) break; n++; } *d = C(n); return true; }
  case B_ABORT: sh->panics++; report("abort", "abort()"); endPath();
  case B_WRITE: { uint64_t n = concretize(A(2), 64); if (verbose) fprintf(stderr, "%s", readStr(concretize(A(1), 64), n).c_str()); *d = C(n); return true; }
  case B_GETENV: *d = C(0); return true;
  case B_ERRNO: { if (!errnoObj) errnoObj = newObj(4, 2); *d = C(errnoObj); return true; }
  case B_SXBYTES: { uint64_t p = concretize(A(0), 64), n = concretize(A(1), 64); if (!n) return true; Obj *o = findObj(p, n, true); if (!o->sym) o->sym = (E *)calloc(o->size, sizeof(E)); for (uint64_t i = 0; i < n; i++) o->sym[(p & 0xffffffff) + i] = newInput(8); evalGen++; return true; }
  case B_SXANY: { uint64_t w = concretize(A(0), 32); E v = newInput(w); evalGen++; *d = mkV(mkZExt(v, 64)); return true; }
  case B_SXASSUME: { Val v = A(0); if (v.e && v.e->w != 1) v = mkV(mkTrunc(v.e, 1)); assume(v); return true; }
  case B_SXASSERT: { Val v = A(0); if (v.e && v.e->w != 1) v = mkV(mkTrunc(v.e, 1)); sh->asserts++; uint64_t id = concretize(A(1), 32);
    bool ok = v.e ? decide(v.e) : (v.c & 1); if (!ok) { sh->panics++; report("assert", "assertion " + std::to_string(id)); endPath(); } return true; }
  case B_SXCOVER: { uint64_t i = concretize(A(0), 32) & 255; sh->cover[i]++; return true; }
  case B_SXOBS: observations.push_back(A(0)); return true;
  case B_SXCONC: *d = C(concretize(A(0), 64)); return true;
  case B_SXMODE: *d = C(1); return true;
  case B_SXPARAM: { uint64_t i = concretize(A(0), 32); *d = C(i < params.size() ? params[i] : 0); return true; }
  case B_SXITE: { Val c = A(0); E ce = toE(c, x.opw[0]); if (ce->w != 1) ce = mkTrunc(ce, 1); *d = mkV(mkIte(ce, toE(A(1), 64), toE(A(2), 64))); return true; }
  case B_KEYS: d[0] = C(0); d[1] = C(0); return true;   // std's per-process hash keys
  case B_PANIC: {
    std::string msg = fn.dem; // last pointer argument is usually &Location {file ptr, len, line, col}
    for (int i = (int)x.ops.size() - 1; i >= 0; i--) { Val v = A(i); if (v.e) continue; uint64_t id = v.c >> 32; if (id < 2 || id >= objs.size() || objs[id]->size < 24 || objs[id]->freed) continue; Obj *o = objs[id]; uint64_t f = v.c & 0xffffffff; if (f + 24 > o->size) continue; uint64_t p, n; uint32_t ln; memcpy(&p, o->data + f, 8); memcpy(&n, o->data + f + 8, 8); memcpy(&ln, o->data + f + 16, 4); if (n < 300 && (p >> 32) >= 2) { std::string s = readStr(p, n); if (s.size() > 3 && s.substr(s.size() - 3) == ".rs") { msg += " at " + s + ":" + std::to_string(ln); break; } } }
    sh->panics++; report("panic", msg); endPath(); }
  }
  return false;
}

static void enter(int fi, Frame *caller, Inst *ci) {
  Fn &f = fns[fi];
  if (regTop + f.nregs + 8 > regEnd || stack.size() > 20000) { sh->panics++; report("stack-overflow", "call depth"); endPath(); }
  Frame nf; nf.fn = fi; nf.pc = 0; nf.regs = regTop; nf.objMark = allocas.size(); nf.retDst = ci ? ci->dst : 0; regTop += f.nregs;
  memset((void *)nf.regs, 0, sizeof(Val) * f.nregs);
  if (ci) { for (size_t i = 0; i < f.args.size() && i < ci->ops.size(); i++) { int k = (i + 1 < f.args.size() ? f.args[i + 1] : -1); int cnt = k >= 0 ? k - f.args[i] : nLeaves(f.F->getArg(i)->getType()); for (int j = 0; j < cnt; j++) nf.regs[f.args[i] + j] = getv(*caller, leafOp(ci->ops[i], j)); } }
  stack.push_back(nf);
}

static void run(int entry) {
  enter(entry, nullptr, nullptr);
  uint64_t total = 0;
  while (true) {
    Frame &fr = stack.back(); Fn &f = fns[fr.fn]; Inst &x = f.code[fr.pc];
    covBits[x.cov] = 1; pathInsts++;
    if (++total > maxInsts) { sh->hangs++; report("hang", "instruction budget exceeded"); endPath(); }
    if ((total & 0xfffff) == 0) checkTime();
    Val *d = fr.regs + x.dst;
    switch (x.k) {
    case KNop: break;
    case KBin: { Val a = getv(fr, x.ops[0]), b = getv(fr, x.ops[1]);
      if (!a.e && !b.e && !x.lanes) { uint32_t w = x.w; uint64_t m = maskw(w), r; 
        switch (x.sub) { case OAdd: r = a.c + b.c; break; case OSub: r = a.c - b.c; break; case OMul: r = a.c * b.c; break; case OAnd: r = a.c & b.c; break; case OOr: r = a.c | b.c; break; case OXor: r = a.c ^ b.c; break;
        case OShl: r = b.c >= w ? 0 : a.c << b.c; break; case OLShr: r = b.c >= w ? 0 : a.c >> b.c; break; case OAShr: r = (uint64_t)(sextw(a.c, w) >> (b.c >= w ? w - 1 : b.c)); break;
        case OUDiv: r = b.c ? a.c / b.c : 0; break; case OURem: r = b.c ? a.c % b.c : 0; break; default: r = foldBin((Op)x.sub, APInt(w, a.c), APInt(w, b.c)).getZExtValue(); }
        *d = C(r & m); }
      else *d = mkV(binE((Op)x.sub, toE(a, x.w), toE(b, x.w), x.lanes));
      break; }
    case KICmp: { Val a = getv(fr, x.ops[0]), b = getv(fr, x.ops[1]); uint32_t w = x.w2;
      if (!a.e && !b.e && !x.lanes) { bool r; switch (x.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_SLT: r = sextw(a.c, w) < sextw(b.c, w); break; case CmpInst::ICMP_SLE: r = sextw(a.c, w) <= sextw(b.c, w); break; case CmpInst::ICMP_SGT: r = sextw(a.c, w) > sextw(b.c, w); break; default: r = sextw(a.c, w) >= sextw(b.c, w); } *d = C(r); }
      else { E p = toE(a, w), q = toE(b, w); if (!x.lanes) *d = mkV(icmpE(x.sub, p, q)); else { uint32_t ew = w / x.lanes; E r = nullptr; for (uint32_t i = 0; i < x.lanes; i++) { E y = icmpE(x.sub, laneOf(p, ew, i), laneOf(q, ew, i)); r = r ? mkConcat(y, r) : y; } *d = mkV(r); } }
      break; }
    case KFCmp: { if (x.lanes) fatal("vector fcmp"); *d = mkV(fcmpE(x.sub, toE(getv(fr, x.ops[0]), x.w2), toE(getv(fr, x.ops[1]), x.w2))); break; }
    case KFBin: { Val a = getv(fr, x.ops[0]), b = getv(fr, x.ops[1]); if (x.lanes) fatal("vector floating-point arithmetic"); if (a.e) a = C(concretize(a, x.w)); if (b.e) b = C(concretize(b, x.w)); double p = asF(a.c, x.w), q = asF(b.c, x.w), r;
      if (x.w == 32) { float pf = p, qf = q, rf; rf = x.sub == Instruction::FAdd ? pf + qf : x.sub == Instruction::FSub ? pf - qf : x.sub == Instruction::FMul ? pf * qf : x.sub == Instruction::FDiv ? pf / qf : fmodf(pf, qf); r = rf; }
      else r = x.sub == Instruction::FAdd ? p + q : x.sub == Instruction::FSub ? p - q : x.sub == Instruction::FMul ? p * q : x.sub == Instruction::FDiv ? p / q : fmod(p, q);
      *d = C(fromF(r, x.w)); break; }
    case KFNeg: { Val a = getv(fr, x.ops[0]); *d = mkV(mkBin(OXor, toE(a, x.w), mkC(x.w, 1ULL << (x.w - 1)))); break; }
    case KCast: { Val a = getv(fr, x.ops[0]); uint32_t sw = x.w2, w = x.w;
      switch (x.sub) {
      case Instruction::BitCast: case Instruction::AddrSpaceCast: *d = a; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
        if (x.lanes) { E e = toE(a, sw); uint32_t es = sw / x.lanes, ed = w / x.lanes; E r = nullptr; for (uint32_t i = 0; i < x.lanes; i++) { E y = laneOf(e, es, i); y = x.sub == Instruction::Trunc ? mkTrunc(y, ed) : x.sub == Instruction::SExt ? mkSExt(y, ed) : mkZExt(y, ed); r = r ? mkConcat(y, r) : y; } *d = mkV(r); break; }
        if (!a.e && w <= 64) { *d = C(x.sub == Instruction::SExt ? (uint64_t)sextw(a.c, sw) & maskw(w) : a.c & maskw(w)); break; }
        E e = toE(a, sw); *d = mkV(w < sw ? mkTrunc(e, w) : x.sub == Instruction::SExt ? mkSExt(e, w) : mkZExt(e, w)); break; }
      case Instruction::FPExt: if (a.e) a = C(concretize(a, sw)); *d = C(fromF(asF(a.c, sw), w)); break;
      case Instruction::FPTrunc: if (a.e) a = C(concretize(a, sw)); *d = C(fromF(asF(a.c, sw), w)); break;
      case Instruction::UIToFP: if (a.e) a = C(concretize(a, sw)); *d = C(w == 32 ? fromF((float)a.c, 32) : fromF((double)a.c, 64)); break;
      case Instruction::SIToFP: if (a.e) a = C(concretize(a, sw)); *d = C(w == 32 ? fromF((float)sextw(a.c, sw), 32) : fromF((double)sextw(a.c, sw), 64)); break;
      case Instruction::FPToUI: if (a.e) a = C(concretize(a, sw)); *d = C((uint64_t)asF(a.c, sw) & maskw(w)); break;
      case Instruction::FPToSI: if (a.e) a = C(concretize(a, sw)); *d = C((uint64_t)(int64_t)asF(a.c, sw) & maskw(w)); break;
      } break; }
    case KLoad: { Val a = getv(fr, x.ops[0]); if (x.leaves.size() == 1) { *d = load(a, x.leaves[0].bytes, x.leaves[0].w); } else { uint64_t b = concretize(a, 64); for (size_t i = 0; i < x.leaves.size(); i++) { Val v = load(C(b + x.leaves[i].off), x.leaves[i].bytes, x.leaves[i].w); d[i] = v; } } break; }
    case KStore: { Val a = getv(fr, x.ops[1]); if (a.e) a = C(concretize(a, 64)); for (size_t i = 0; i < x.leaves.size(); i++) store(C(a.c + x.leaves[i].off), x.leaves[i].bytes, x.leaves[i].w, getv(fr, leafOp(x.ops[0], i))); break; }
    case KGep: { Val b = getv(fr, x.ops[0]); E e = b.e; uint64_t c = b.c + (e ? 0 : x.cst); if (e && x.cst) e = mkBin(OAdd, e, mkC(64, x.cst));
      for (size_t i = 0; i < x.gep.size(); i++) { Val v = getv(fr, x.gep[i].first); uint32_t iw = x.opw[i]; if (!v.e) { uint64_t t = (uint64_t)sextw(v.c, iw) * x.gep[i].second; if (e) e = mkBin(OAdd, e, mkC(64, t)); else c += t; } else { E t = mkBin(OMul, iw < 64 ? mkSExt(v.e, 64) : v.e, mkC(64, x.gep[i].second)); e = e ? mkBin(OAdd, e, t) : mkBin(OAdd, t, mkC(64, c)); } }
      *d = e ? mkV(e) : C(c); break; }
    case KAlloca: { uint64_t n = concretize(getv(fr, x.ops[0]), x.opw[0]); uint64_t p = newObj(n * x.cst, 3); allocas.push_back(p); *d = C(p); break; }
    case KBr: { Edge &e = x.edges[0]; for (auto &c : e.copies) fr.regs[c.first] = getv(fr, c.second); fr.pc = e.target; continue; }
    case KCondBr: { Val c = getv(fr, x.ops[0]); bool t = c.e ? decide(c.e) : (c.c & 1); Edge &e = x.edges[t ? 0 : 1]; for (auto &cp : e.copies) fr.regs[cp.first] = getv(fr, cp.second); fr.pc = e.target; continue; }
    case KSwitch: { Val c = getv(fr, x.ops[0]); int k = 0;
      if (!c.e) { for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == c.c) { k = i + 1; break; } }
      else {
        // group cases by destination, then split on feasible groups
        std::map<int, E> g; std::vector<int> order; E def = mkC(1, 1);
        auto eqc = [&](size_t i) { return mkEq(c.e, mkC(x.w2, x.cases[i])); };
        for (size_t i = 0; i < x.cases.size(); i++) { E q = eqc(i); def = mkAndB(def, mkNot(q)); if (isZero(q)) continue; int t = i + 1; 
          // same target with same copies => merge
          int rep = -1; for (int o : order) if (x.edges[o].target == x.edges[t].target && x.edges[o].copies == x.edges[t].copies) { rep = o; break; }
          if (rep >= 0) g[rep] = mkOrB(g[rep], q); else { g[t] = q; order.push_back(t); } }
        { int rep = -1; for (int o : order) if (x.edges[o].target == x.edges[0].target && x.edges[o].copies == x.edges[0].copies) rep = o; if (rep >= 0) g[rep] = mkOrB(g[rep], def); else { g[0] = def; order.push_back(0); } }
        k = -1;
        for (size_t i = 0; i < order.size(); i++) { if (i + 1 == order.size()) { k = order[i]; break; } if (decide(g[order[i]])) { k = order[i]; break; } }
      }
      Edge &e = x.edges[k]; for (auto &cp : e.copies) fr.regs[cp.first] = getv(fr, cp.second); fr.pc = e.target; continue; }
    case KRet: {
      Val tmp[16]; std::vector<Val> big; Val *src = tmp; if (x.n > 16) { big.resize(x.n); src = big.data(); }
      for (int j = 0; j < x.n; j++) src[j] = getv(fr, leafOp(x.ops[0], j));
      int rd = fr.retDst; while (allocas.size() > fr.objMark) { Obj *o = objs[allocas.back() >> 32]; o->freed = true; free(o->data); o->data = nullptr; free(o->sym); o->sym = nullptr; allocas.pop_back(); }
      regTop = fr.regs; stack.pop_back(); if (stack.empty()) finishOk();
      Frame &cf = stack.back(); for (int j = 0; j < x.n; j++) cf.regs[rd + j] = src[j];
      Inst &ci = fns[cf.fn].code[cf.pc]; if (ci.normal >= 0) { Edge &e = ci.edges[0]; for (auto &c : e.copies) cf.regs[c.first] = getv(cf, c.second); cf.pc = e.target; } else cf.pc++;
      continue; }
    case KSelect: { Val c = getv(fr, x.ops[0]);
      if (x.lanes && x.opw[0] > 1) { E ce = toE(c, x.opw[0]); E a = toE(getv(fr, x.ops[1]), x.w), b = toE(getv(fr, x.ops[2]), x.w); uint32_t ew = x.w / x.lanes; E r = nullptr; for (uint32_t i = 0; i < x.lanes; i++) { E y = mkIte(mkExtract(ce, i, 1), laneOf(a, ew, i), laneOf(b, ew, i)); r = r ? mkConcat(y, r) : y; } *d = mkV(r); break; }
      if (!c.e) { for (int j = 0; j < x.n; j++) d[j] = getv(fr, leafOp(x.ops[c.c & 1 ? 1 : 2], j)); break; }
      if (x.n != 1) { bool t = decide(c.e); for (int j = 0; j < x.n; j++) d[j] = getv(fr, leafOp(x.ops[t ? 1 : 2], j)); break; }
      if (x.I->getType()->isPointerTy()) { Val a = getv(fr, x.ops[1]), b = getv(fr, x.ops[2]); if (!a.e && !b.e && a.c == b.c) { *d = a; break; } bool t = decide(c.e); *d = t ? a : b; break; }
      if (forkSelect && x.w == 64) { Val a = getv(fr, x.ops[1]), b = getv(fr, x.ops[2]); if (!a.e && !b.e && a.c != b.c) { *d = decide(c.e) ? a : b; break; } }   // index-like
      *d = mkV(mkIte(c.e, toE(getv(fr, x.ops[1]), x.w), toE(getv(fr, x.ops[2]), x.w))); break; }
    case KCopy: for (int j = 0; j < x.n; j++) d[j] = getv(fr, leafOp(x.ops[0], j)); break;
    case KExtract: for (int j = 0; j < x.n; j++) d[j] = getv(fr, leafOp(x.ops[0], j)); break;
    case KInsert: for (int j = 0; j < x.n; j++) d[j] = (j >= x.cst && j < x.cst + (int)x.w2) ? getv(fr, leafOp(x.ops[1], j - x.cst)) : getv(fr, leafOp(x.ops[0], j)); break;
    case KExtEl: { E v = toE(getv(fr, x.ops[0]), x.opw[0]); uint64_t i = concretize(getv(fr, x.ops[1]), x.opw[1]); *d = mkV(laneOf(v, x.w, i)); break; }
    case KInsEl: { E v = toE(getv(fr, x.ops[0]), x.w); uint64_t i = concretize(getv(fr, x.ops[2]), x.opw[2]); E el = toE(getv(fr, x.ops[1]), x.w2); uint32_t ew = x.w2, n = x.w / ew; E r = nullptr; for (uint32_t k = 0; k < n; k++) { E y = k == i ? el : laneOf(v, ew, k); r = r ? mkConcat(y, r) : y; } *d = mkV(r); break; }
    case KShuf: { E a = toE(getv(fr, x.ops[0]), x.opw[0]), b = toE(getv(fr, x.ops[1]), x.opw[1]); uint32_t ew = x.w2; E r = nullptr; for (uint64_t m : x.cases) { int64_t i = (int64_t)m; E y = i < 0 ? mkC(ew, 0) : i < x.cst ? laneOf(a, ew, i) : laneOf(b, ew, i - x.cst); r = r ? mkConcat(y, r) : y; } *d = mkV(r); break; }
    case KAtomicRMW: { Val p = getv(fr, x.ops[0]), v = getv(fr, x.ops[1]); Val o = load(p, x.w2, x.w); E a = toE(o, x.w), b = toE(v, x.w), r; switch (x.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(OAdd, a, b); break; case AtomicRMWInst::Sub: r = mkBin(OSub, a, b); break; case AtomicRMWInst::And: r = mkBin(OAnd, a, b); break; case AtomicRMWInst::Or: r = mkBin(OOr, a, b); break; case AtomicRMWInst::Xor: r = mkBin(OXor, a, b); break; default: fatal("atomicrmw op"); } store(p, x.w2, x.w, mkV(r)); *d = o; break; }
    case KCmpXchg: { Val p = getv(fr, x.ops[0]), e = getv(fr, x.ops[1]), n = getv(fr, x.ops[2]); Val o = load(p, x.w2, x.w); E eq = mkEq(toE(o, x.w), toE(e, x.w)); bool t = decide(eq); if (t) store(p, x.w2, x.w, n); d[0] = o; d[1] = C(t); break; }
    case KUnreach: fatal("reached unreachable");
    case KCall: {
      if (x.builtin == B_INTR) { if (!intrinsic(fr, x)) fatal("unsupported intrinsic " + x.callee->getName().str()); if (x.normal >= 0) { Edge &e = x.edges[0]; for (auto &c : e.copies) fr.regs[c.first] = getv(fr, c.second); fr.pc = e.target; continue; } break; }
      int fi;
      if (x.callee) fi = x.fnIdx >= 0 ? x.fnIdx : (x.fnIdx = fnOf.lookup(x.callee)); 
      else { if (x.flag) { break; /* inline asm: compiler barriers only */ } uint64_t a = concretize(getv(fr, (int)x.cst), 64); if ((a >> 32) != FNID || ((a & 0xffffffff) >> 4) >= fns.size()) fatal("call through bad pointer"); fi = (a & 0xffffffff) >> 4; }
      Fn &g = fns[fi];
      if (g.builtin) { if (!call(fr, x, g, g.builtin)) fatal("unsupported builtin " + g.name); if (x.normal >= 0) { Edge &e = x.edges[0]; for (auto &c : e.copies) fr.regs[c.first] = getv(fr, c.second); fr.pc = e.target; continue; } break; }
      if (g.decl) fatal("call to external function " + g.name);
      enter(fi, &fr, &x); continue; }
    default: { std::string s; raw_string_ostream os(s); x.I->print(os); fatal("unsupported instruction: " + os.str()); }
    }
    fr.pc++;
  }
}

static size_t nGlobalObjs; static Val *regBase; static std::vector<std::pair<size_t, std::vector<uint8_t>>> globalInit;
static void snapshot() { nGlobalObjs = objs.size(); regBase = regTop; for (size_t i = 2; i < objs.size(); i++) if (!objs[i]->ro) globalInit.push_back({i, std::vector<uint8_t>(objs[i]->data, objs[i]->data + objs[i]->size)}); }
static void resetState() {
  for (size_t i = nGlobalObjs; i < objs.size(); i++) { free(objs[i]->data); free(objs[i]->sym); free(objs[i]); }
  objs.resize(nGlobalObjs);
  for (auto &g : globalInit) { Obj *o = objs[g.first]; memcpy(o->data, g.second.data(), o->size); if (o->sym) { free(o->sym); o->sym = nullptr; } o->freed = false; }
  regTop = regBase; stack.clear(); allocas.clear(); errnoObj = 0;
  pathCond.clear(); asserted = 0; facts.clear(); ivals.clear(); factGen++; evalGen++; inputs.clear(); observations.clear(); pathInsts = 0;
}
static size_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); size_t a = 0, b = 0; if (f) { if (fscanf(f, "%zu %zu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 >> 20; }
static size_t maxRss = 1500;
[[noreturn]] static void worker(int entry) {
  uint64_t n = 0;
  while (!pending.empty() && !sh->stop) {
    Item it = std::move(pending.back()); pending.pop_back();
    resetState(); trace = std::move(it.trace); replayPos = 0; replayLen = trace.size(); model = std::move(it.model);
    try { run(entry); } catch (PathEnd &) {}
    sh->insts += pathInsts; sh->paths++;
    if ((++n & 15) == 0 && now() - tStart > maxTime && !sh->stop.exchange(1)) { appendFile("errors.log", "time limit"); sh->errors++; }
    if ((n & 63) == 0 && rssMB() > maxRss && !pending.empty()) {      // continue in a fresh process
      std::string f = outDir + "/spill." + std::to_string(getpid()); FILE *o = fopen((f + ".tmp").c_str(), "wb");
      for (auto &p : pending) { uint64_t h[2] = {p.trace.size(), p.model.size()}; fwrite(h, 8, 2, o); for (auto &d : p.trace) { uint64_t x[2] = {d.dir, d.val}; fwrite(x, 8, 2, o); } fwrite(p.model.data(), 8, p.model.size(), o); }
      fclose(o); rename((f + ".tmp").c_str(), f.c_str()); _exit(42);
    }
  }
  sh->tokens++; _exit(0);
}
static void readSpill(const std::string &f) {
  FILE *o = fopen(f.c_str(), "rb"); uint64_t h[2];
  while (o && fread(h, 8, 2, o) == 2) { Item it; for (uint64_t i = 0; i < h[0]; i++) { uint64_t x[2]; if (fread(x, 8, 2, o) != 2) abort(); it.trace.push_back({(uint8_t)x[0], x[1]}); } it.model.resize(h[1]); if (fread(it.model.data(), 8, h[1], o) != h[1]) abort(); pending.push_back(std::move(it)); }
  if (o) fclose(o); unlink(f.c_str());
}
static std::atomic<int> alarms{0};
static void onAlarm(int) { if (!sh->stop.exchange(1)) sh->errors++; if (alarms++) kill(0, SIGTERM); alarm(10); }
static void launch(int entry, const std::string &spill) {
  pid_t c = fork(); if (c < 0) { sh->errors++; appendFile("errors.log", "fork failed"); return; }
  if (c == 0) { childInit(); if (spill.empty()) pending.push_back(Item()); else readSpill(spill); worker(entry); }
}
static void explore(int entry) {
  signal(SIGTERM, SIG_IGN); launch(entry, "");
  while (true) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (WIFSIGNALED(st)) { sh->errors++; appendFile("errors.log", "worker killed by signal " + std::to_string(WTERMSIG(st))); }
    else if (WEXITSTATUS(st) == 42) { std::string f = outDir + "/spill." + std::to_string(p); if (!sh->stop) launch(entry, f); else unlink(f.c_str()); }
    else if (WEXITSTATUS(st) != 0) { sh->errors++; appendFile("errors.log", "worker exited with status " + std::to_string(WEXITSTATUS(st))); }
  }
}

int main(int argc, char **argv) {
  std::string bc; int jobs = 8; int samples = 32; std::string covFilter = "/repo/";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nx(); else if (a == "--out") outDir = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--max-insts") maxInsts = stoull(nx()); else if (a == "--max-time") maxTime = stod(nx());
    else if (a == "--samples") samples = stoi(nx()); else if (a == "--sample-every") sampleEvery = stoi(nx()); else if (a == "--max-viol") maxViol = stoi(nx()); else if (a == "--max-alloc") maxAlloc = stoull(nx()); else if (a == "--param") params.push_back(stoull(nx())); else if (a == "--max-rss") maxRss = stoull(nx()); else if (a == "-v") verbose++; else if (a == "--no-fork-select") forkSelect = false; else bc = a; }
  tStart = now();
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("sx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  setpgid(0, 0);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->tokens = jobs - 1; sh->sampleLeft = samples;
  for (auto &c : sh->cover) c = 0;
  // functions and globals
  objs.push_back(nullptr); objs.push_back(nullptr);
  for (auto &F : *M) { int i = fns.size(); Fn f; f.F = &F; f.decl = F.isDeclaration(); f.name = F.getName().str(); f.dem = demangle(f.name); size_t p = f.dem.rfind("::h"); if (p != std::string::npos && f.dem.size() - p == 19) f.dem.resize(p);
    auto it = builtins.find(f.name); if (it != builtins.end() && (f.decl || (f.name != "write" && f.name != "getenv"))) f.builtin = it->second;
    auto pre = [&](const char *s) { return f.dem.rfind(s, 0) == 0; };
    if (pre("core::panicking::panic_fmt") || pre("core::panicking::panic_nounwind") || f.name == "rust_begin_unwind" || pre("std::panicking::begin_panic") || pre("std::panicking::rust_panic") || f.dem == "core::panicking::panic" || pre("core::panicking::panic_explicit") || pre("core::panicking::panic_bounds_check") || pre("core::panicking::panic_const") || pre("core::panicking::panic_str") || pre("core::panicking::panic_display") || pre("core::panicking::assert_failed") || pre("core::panicking::panic_misaligned") || pre("core::panicking::panic_cannot_unwind") || pre("core::panicking::panic_in_cleanup") || pre("core::result::unwrap_failed") || pre("core::option::unwrap_failed") || pre("core::option::expect_failed") || pre("alloc::alloc::handle_alloc_error") || pre("alloc::raw_vec::capacity_overflow") || pre("core::slice::index::slice_") || pre("core::str::slice_error_fail") || pre("std::process::abort") || pre("core::cell::panic_already")) f.builtin = B_PANIC;
    if (pre("std::sys::pal::unix::rand::hashmap_random_keys")) f.builtin = B_KEYS;
    fnOf[&F] = i; gaddr[&F] = (FNID << 32) | ((uint64_t)i << 4); fns.push_back(std::move(f)); }
  for (auto &G : M->globals()) { uint64_t a = newObj(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 1, 4); gaddr[&G] = a; }
  for (auto &A : M->aliases()) if (auto *g = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) gaddr[&A] = gaddr[g];
  for (auto &G : M->globals()) if (G.hasInitializer()) { Obj *o = objs[gaddr[&G] >> 32]; initMem(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
  uint32_t cov = 0; for (auto &f : fns) if (!f.decl) decodeFn(f, cov);
  nCov = cov; covBits = (uint8_t *)mmap(nullptr, nCov + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int entry = -1; for (size_t i = 0; i < fns.size(); i++) if (fns[i].name == entryName && !fns[i].decl) entry = i;
  if (entry < 0) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 3; }
  size_t nregsTop = 8u << 20; regTop = (Val *)mmap(nullptr, nregsTop * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); regEnd = regTop + nregsTop;
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context_rc(cfg); Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); abort(); });
  { const char *lg = getenv("SX_LOGIC"); zs = !lg ? Z3_mk_simple_solver(zc) : Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, lg)); } Z3_solver_inc_ref(zc, zs);
  double tLoad = now() - tStart; tStart = now();
  signal(SIGALRM, onAlarm); alarm((unsigned)maxTime + 10);
  snapshot(); explore(entry);
  double wall = now() - tStart;
  // coverage: repository functions and lines whose instructions were executed symbolically
  std::set<std::string> funs; std::set<std::string> lines; uint32_t ci = 0; uint64_t covered = 0;
  for (auto &f : fns) { if (f.decl) continue; for (auto &B : *f.F) for (auto &I : B) { uint32_t k = ci++; if (!covBits[k]) continue; covered++; if (auto D = I.getDebugLoc()) for (const DILocation *L = D.get(); L; L = L->getInlinedAt()) { std::string fn = (L->getDirectory() + "/" + L->getFilename()).str(); if (L->getFilename().starts_with("/")) fn = L->getFilename().str(); if (fn.find(covFilter) == std::string::npos) continue; lines.insert(fn + ":" + std::to_string(L->getLine())); if (auto *SP = L->getScope()->getSubprogram()) funs.insert(fn.substr(fn.find(covFilter) + covFilter.size()) + "::" + SP->getName().str()); } } }
  FILE *o = fopen((outDir + "/result.json").c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"ok\":%lu,\"killed\":%lu,\"violations\":%lu,\"hangs\":%lu,\"errors\":%lu,\"bounded\":%lu,\"forks\":%lu,\"branches\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"insts\":%lu,\"max_depth\":%lu,\"folded\":%lu,\"ir_covered\":%lu,\"covers\":[",
    jstr(entryName).c_str(), sh->ok.load(), sh->killed.load(), sh->panics.load(), sh->hangs.load(), sh->errors.load(), sh->bounded.load(), sh->forks.load(), sh->branches.load(), sh->queries.load(), sh->qsat.load(), sh->qunsat.load(), sh->solverNs.load() / 1e9, wall, tLoad, sh->insts.load(), sh->maxDepth.load(), sh->folded.load(), covered);
  bool first = true; for (int i = 0; i < 256; i++) if (sh->cover[i].load()) { fprintf(o, "%s%d", first ? "" : ",", i); first = false; }
  fprintf(o, "],\"functions\":["); first = true; for (auto &s : funs) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(o, "],\"lines\":["); first = true; for (auto &s : lines) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(o, "]}\n"); fclose(o);
  return 0;
}
