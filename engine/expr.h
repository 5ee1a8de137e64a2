// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <llvm/ADT/APInt.h>
#include <z3.h>

using llvm::APInt;

enum Op : uint8_t { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, ONot, OIte, OConcat, OExtract, OZExt, OSExt };

struct Expr {
  Op op; uint32_t w; uint32_t id;
  uint64_t c;            // const value (w<=64), var index, extract low bit
  const APInt *big;      // const value when w>64
  Expr *a, *b, *d;
  Z3_ast z3;
  uint64_t evalGen; uint64_t evalC; APInt *evalBig;
  uint32_t simpGen, rngGen; Expr *simpR; uint64_t rlo, rhi;
};
typedef Expr *E;

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, uint32_t w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); return (int64_t)((v ^ m) - m); }

struct KeyHash { size_t operator()(E e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ULL + e->w * 0xC2B2AE3D27D4EB4FULL;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
  mix(e->c); mix((uint64_t)(e->a ? e->a->id + 1 : 0)); mix((uint64_t)(e->b ? e->b->id + 1 : 0)); mix((uint64_t)(e->d ? e->d->id + 1 : 0));
  if (e->big) for (unsigned i = 0; i < e->big->getNumWords(); i++) mix(e->big->getRawData()[i]);
  return h; } };
struct KeyEq { bool operator()(E x, E y) const {
  if (x->op != y->op || x->w != y->w || x->c != y->c || x->a != y->a || x->b != y->b || x->d != y->d) return false;
  if (!x->big != !y->big) return false;
  return !x->big || *x->big == *y->big; } };
#include <unordered_set>
extern std::unordered_set<E, KeyHash, KeyEq> gExprs;
extern uint32_t gExprId;

E mkRaw(Op op, uint32_t w, E a = nullptr, E b = nullptr, E d = nullptr, uint64_t c = 0, const APInt *big = nullptr);
E mkC(uint32_t w, uint64_t c);
E mkBig(const APInt &v);
inline bool isC(E e) { return e->op == OConst; }
APInt constOf(E e);
inline bool isCV(E e, uint64_t v) { return e->op == OConst && e->w <= 64 && e->c == (v & maskw(e->w)); }
bool isZero(E e); bool isOnes(E e);
E mkVar(uint32_t w, uint32_t idx);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkNot(E a); E mkIte(E c, E a, E b); E mkConcat(E hi, E lo); E mkExtract(E a, uint32_t lo, uint32_t w);
E mkZExt(E a, uint32_t w); E mkSExt(E a, uint32_t w);
inline E mkTrunc(E a, uint32_t w) { return a->w == w ? a : mkExtract(a, 0, w); }
inline E mkAndB(E a, E b) { return mkBin(OAnd, a, b); }
inline E mkOrB(E a, E b) { return mkBin(OOr, a, b); }
APInt foldBin(Op op, const APInt &a, const APInt &b);
std::string dumpE(E e, int depth = 6);
