#include "expr.h"
#include <llvm/ADT/SmallString.h>
std::unordered_set<E, KeyHash, KeyEq> gExprs;
uint32_t gExprId = 0;

static char *arena = nullptr; static size_t arenaLeft = 0;
static E allocE() {
  if (arenaLeft < sizeof(Expr)) { arena = (char *)malloc(sizeof(Expr) * 512); arenaLeft = sizeof(Expr) * 512; }
  E e = (E)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
E mkRaw(Op op, uint32_t w, E a, E b, E d, uint64_t c, const APInt *big) {
  Expr k; memset((void *)&k, 0, sizeof k);
  k.op = op; k.w = w; k.c = c; k.big = big; k.a = a; k.b = b; k.d = d;
  auto it = gExprs.find(&k);
  if (it != gExprs.end()) return *it;
  E e = allocE(); *e = k; e->id = gExprId++; if (big) e->big = new APInt(*big);
  gExprs.insert(e); return e;
}
E mkC(uint32_t w, uint64_t c) {
  if (w > 64) { APInt v(w, c); return mkRaw(OConst, w, nullptr, nullptr, nullptr, 0, &v); }
  return mkRaw(OConst, w, nullptr, nullptr, nullptr, c & maskw(w));
}
E mkBig(const APInt &v) {
  if (v.getBitWidth() <= 64) return mkC(v.getBitWidth(), v.getZExtValue());
  return mkRaw(OConst, v.getBitWidth(), nullptr, nullptr, nullptr, 0, &v);
}
APInt constOf(E e) { return e->big ? *e->big : APInt(e->w, e->c); }
bool isZero(E e) { return isC(e) && (e->big ? e->big->isZero() : e->c == 0); }
bool isOnes(E e) { return isC(e) && (e->big ? e->big->isAllOnes() : e->c == maskw(e->w)); }
E mkVar(uint32_t w, uint32_t idx) { return mkRaw(OVar, w, nullptr, nullptr, nullptr, idx); }

APInt foldBin(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  switch (op) {
  case OAdd: return a + b; case OSub: return a - b; case OMul: return a * b;
  case OUDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case OSDiv: return b.isZero() ? APInt::getAllOnes(w) : a.sdiv(b);
  case OURem: return b.isZero() ? a : a.urem(b);
  case OSRem: return b.isZero() ? a : a.srem(b);
  case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
  case OShl: return b.uge(w) ? APInt(w, 0) : a.shl(b); case OLShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case OAShr: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
  case OEq: return APInt(1, a == b); case OUlt: return APInt(1, a.ult(b)); case OUle: return APInt(1, a.ule(b));
  case OSlt: return APInt(1, a.slt(b)); case OSle: return APInt(1, a.sle(b));
  default: abort();
  }
}
static uint64_t fold64(Op op, uint64_t a, uint64_t b, uint32_t w) {
  uint64_t m = maskw(w);
  switch (op) {
  case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
  case OUDiv: return b ? a / b : m; case OURem: return b ? a % b : a;
  case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << b) & m; case OLShr: return b >= w ? 0 : a >> b;
  case OAShr: return (uint64_t)(sextw(a, w) >> (b >= w ? (w - 1) : b)) & m;
  default: { APInt r = foldBin(op, APInt(w, a), APInt(w, b)); return r.getZExtValue(); }
  }
}
static bool comm(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor; }

// number of leading bits known zero
static uint32_t lz(E e, int dep = 8) {
  if (dep <= 0) return e->op == OConst ? constOf(e).countl_zero() : 0;
  switch (e->op) {
  case OConst: return constOf(e).countl_zero();
  case OZExt: return e->w - e->a->w + lz(e->a, dep - 1);
  case OConcat: { uint32_t h = lz(e->a, dep - 1); return h == e->a->w ? h + lz(e->b, dep - 1) : h; }
  case OAnd: return std::max(lz(e->a, dep - 1), lz(e->b, dep - 1));
  case OOr: case OXor: return std::min(lz(e->a, dep - 1), lz(e->b, dep - 1));
  case OIte: return std::min(lz(e->b, dep - 1), lz(e->d, dep - 1));
  case OUDiv: return lz(e->a, dep - 1);
  case OURem: return isC(e->b) ? std::max(lz(e->a, dep - 1), lz(e->b, dep - 1)) : lz(e->a, dep - 1);
  case OAdd: { uint32_t m = std::min(lz(e->a, dep - 1), lz(e->b, dep - 1)); return m ? m - 1 : 0; }
  case OMul: { uint32_t x = lz(e->a, dep - 1), y = lz(e->b, dep - 1); uint32_t s = (e->w - x) + (e->w - y); return s >= e->w ? 0 : e->w - s; }
  default: return 0;
  }
}
// trailing bits known zero
static uint32_t tz(E e, int dep = 8) {
  if (dep <= 0) return e->op == OConst ? constOf(e).countr_zero() : 0;
  switch (e->op) {
  case OConst: return constOf(e).countr_zero();
  case OConcat: { uint32_t l = tz(e->b, dep - 1); return l == e->b->w ? l + tz(e->a, dep - 1) : l; }
  case OZExt: case OSExt: { uint32_t l = tz(e->a, dep - 1); return l; }
  case OAdd: case OOr: case OXor: return std::min(tz(e->a, dep - 1), tz(e->b, dep - 1));
  case OMul: return std::min(e->w, tz(e->a, dep - 1) + tz(e->b, dep - 1));
  default: return 0;
  }
}
uint32_t exprTZ(E e) { return std::min(tz(e), e->w); }
uint32_t exprLZ(E e) { return std::min(lz(e), e->w); }

E mkBin(Op op, E a, E b) {
  if (op == OEq) return mkEq(a, b);
  if (op == OUlt) return mkUlt(a, b);
  if (op == OUle) return mkUle(a, b);
  if (op == OSlt) return mkSlt(a, b);
  if (op == OSle) return mkSle(a, b);
  uint32_t w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) { if (w <= 64) return mkC(w, fold64(op, a->c, b->c, w)); return mkBig(foldBin(op, constOf(a), constOf(b))); }
  if (comm(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  switch (op) {
  case OAdd:
    if (w == 1) return mkBin(OXor, a, b);
    if (isZero(b)) return a;
    if (isC(b) && a->op == OAdd && isC(a->b)) return mkBin(OAdd, a->a, mkBin(OAdd, a->b, b));
    if (isC(b) && a->op == OSub && isC(a->a)) return mkBin(OSub, mkBin(OAdd, a->a, b), a->b);
    if (!isC(b) && a->op == OAdd && isC(a->b)) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
    if (!isC(b) && b->op == OAdd && isC(b->b)) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
    if (b->op == OSub && b->b == a) return b->a;
    if (a->op == OSub && a->b == b) return a->a;
    // disjoint bits: treat as or
    if (w <= 64 && !isC(b) && ((lz(a) + tz(b) >= w && tz(b)) || (lz(b) + tz(a) >= w && tz(a)))) return mkBin(OOr, a, b);
    break;
  case OSub:
    if (w == 1) return mkBin(OXor, a, b);
    if (isC(b)) return mkBin(OAdd, a, w <= 64 ? mkC(w, -b->c) : mkBig(-constOf(b)));
    if (a == b) return mkC(w, 0);
    if (a->op == OAdd && a->a == b) return a->b;
    if (a->op == OAdd && a->b == b) return a->a;
    if (b->op == OAdd && isC(b->b)) return mkBin(OSub, mkBin(OSub, a, b->b), b->a);
    if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
    break;
  case OMul:
    if (w == 1) return mkBin(OAnd, a, b);
    if (isZero(b)) return b;
    if (isC(b) && constOf(b).isPowerOf2()) return mkBin(OShl, a, mkC(w, constOf(b).logBase2()));
    if (isC(b) && a->op == OMul && isC(a->b)) return mkBin(OMul, a->a, mkBin(OMul, a->b, b));
    break;
  case OUDiv:
    if (isC(b) && constOf(b).isPowerOf2()) return mkBin(OLShr, a, mkC(w, constOf(b).logBase2()));
    if (isC(b) && w <= 64 && b->c) { // narrow
      uint32_t z = lz(a); if (z >= 1) { uint32_t nw = w - z; if (!nw) return mkC(w, 0); if (b->c > maskw(nw)) return mkC(w, 0);
        if (a->op == OZExt || a->op == OConcat || nw <= w / 2) return mkZExt(mkRaw(OUDiv, nw, mkTrunc(a, nw), mkC(nw, b->c)), w); }
    }
    break;
  case OURem:
    if (isC(b) && constOf(b).isPowerOf2()) { uint32_t k = constOf(b).logBase2(); return k ? mkZExt(mkExtract(a, 0, k), w) : mkC(w, 0); }
    if (isC(b) && w <= 64 && b->c) {
      uint32_t z = lz(a); if (z >= 1) { uint32_t nw = w - z; if (!nw) return mkC(w, 0); if (b->c > maskw(nw)) return a;
        if (a->op == OZExt || a->op == OConcat || nw <= w / 2) return mkZExt(mkRaw(OURem, nw, mkTrunc(a, nw), mkC(nw, b->c)), w); }
    }
    break;
  case OSDiv: case OSRem:
    if (lz(a) && lz(b)) return mkBin(op == OSDiv ? OUDiv : OURem, a, b);
    break;
  case OAnd:
    if (isZero(b)) return b;
    if (isOnes(b)) return a;
    if (a == b) return a;
    if (w == 1 && ((a->op == ONot && a->a == b) || (b->op == ONot && b->a == a))) return mkC(1, 0);
    if (isC(b)) {
      APInt v = constOf(b);
      if (v.isMask()) { uint32_t k = v.countr_one(); return mkZExt(mkExtract(a, 0, k), w); }
      if (v.isShiftedMask()) { uint32_t lo = v.countr_zero(), k = v.popcount();
        return mkZExt(mkConcat(mkExtract(a, lo, k), mkC(lo, 0)), w); }
      if (a->op == OAnd && isC(a->b)) return mkBin(OAnd, a->a, mkBin(OAnd, a->b, b));
      if (a->op == OZExt) return mkZExt(mkBin(OAnd, a->a, mkTrunc(b, a->a->w)), w);
      if (a->op == OConcat) return mkConcat(mkBin(OAnd, a->a, mkExtract(b, a->b->w, a->a->w)), mkBin(OAnd, a->b, mkExtract(b, 0, a->b->w)));
    }
    break;
  case OOr: case OXor:
    if (isZero(b)) return a;
    if (op == OOr && isOnes(b)) return b;
    if (a == b) return op == OOr ? a : mkC(w, 0);
    if (w == 1 && op == OXor && isOnes(b)) return mkNot(a);
    if (w == 1 && op == OOr && ((a->op == ONot && a->a == b) || (b->op == ONot && b->a == a))) return mkC(1, 1);
    if (isC(b) && a->op == op && isC(a->b)) return mkBin(op, a->a, mkBin(op, a->b, b));
    if (w > 1) {
      // merge parts with disjoint support
      for (int sw = 0; sw < 2; sw++) {
        E x = sw ? b : a, y = sw ? a : b;
        uint32_t z = tz(x);
        if (z && z < w && lz(y) >= w - z) return mkConcat(mkExtract(x, z, w - z), mkExtract(y, 0, z));
      }
      if (isC(b) && a->op == OZExt) { E hi = mkExtract(b, a->a->w, w - a->a->w); E lo = mkBin(op, a->a, mkTrunc(b, a->a->w)); return mkConcat(hi, lo); }
      if (isC(b) && a->op == OConcat) return mkConcat(mkBin(op, a->a, mkExtract(b, a->b->w, a->a->w)), mkBin(op, a->b, mkExtract(b, 0, a->b->w)));
      if (a->op == OZExt && b->op == OZExt) { uint32_t nw = std::max(a->a->w, b->a->w); if (nw < w) return mkZExt(mkBin(op, mkZExt(a->a, nw), mkZExt(b->a, nw)), w); }
    }
    break;
  case OShl:
    if (isC(b)) { APInt v = constOf(b); if (v.uge(w)) return mkC(w, 0); uint32_t k = v.getZExtValue(); if (!k) return a;
      return mkConcat(mkExtract(a, 0, w - k), mkC(k, 0)); }
    if (isZero(a)) return a;
    break;
  case OLShr:
    if (isC(b)) { APInt v = constOf(b); if (v.uge(w)) return mkC(w, 0); uint32_t k = v.getZExtValue(); if (!k) return a;
      return mkZExt(mkExtract(a, k, w - k), w); }
    if (isZero(a)) return a;
    break;
  case OAShr:
    if (isC(b)) { APInt v = constOf(b); uint32_t k = v.uge(w) ? w - 1 : v.getZExtValue(); if (!k) return a;
      return mkSExt(mkExtract(a, k, w - k), w); }
    break;
  default: break;
  }
  // push through ite with constant branches
  if (isC(b) && a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  if (isC(a) && b->op == OIte && isC(b->b) && isC(b->d)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  return mkRaw(op, w, a, b);
}

E mkNot(E a) {
  if (a->w != 1) return mkBin(OXor, a, a->w <= 64 ? mkC(a->w, ~0ULL) : mkBig(APInt::getAllOnes(a->w)));
  if (isC(a)) return mkC(1, !a->c);
  if (a->op == ONot) return a->a;
  if (a->op == OUlt) return mkUle(a->b, a->a);
  if (a->op == OUle) return mkUlt(a->b, a->a);
  if (a->op == OSlt) return mkSle(a->b, a->a);
  if (a->op == OSle) return mkSlt(a->b, a->a);
  return mkRaw(ONot, 1, a);
}

// all leaves of an ite tree constant (bounded)
static bool iteConst(E e, int &budget) {
  if (budget-- <= 0) return false;
  if (isC(e)) return true;
  if (e->op == OIte) return iteConst(e->b, budget) && iteConst(e->d, budget);
  return false;
}
static E mapIte(Op op, E e, E k, bool kLeft) {
  if (isC(e)) return kLeft ? mkBin(op, k, e) : mkBin(op, e, k);
  return mkIte(e->a, mapIte(op, e->b, k, kLeft), mapIte(op, e->d, k, kLeft));
}

E mkEq(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "eq width mismatch %u %u\n", a->w, b->w); abort(); }
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(1, 0);
  if (isC(a)) std::swap(a, b);
  uint32_t w = a->w;
  if (isC(b)) {
    if (w == 1) return b->c ? a : mkNot(a);
    switch (a->op) {
    case OZExt: { if (lz(b) < w - a->a->w) return mkC(1, 0); return mkEq(a->a, mkTrunc(b, a->a->w)); }
    case OSExt: { E t = mkTrunc(b, a->a->w); if (mkSExt(t, w) != b) return mkC(1, 0); return mkEq(a->a, t); }
    case OConcat: return mkAndB(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
    case OAdd: if (isC(a->b)) return mkEq(a->a, mkBin(OSub, b, a->b)); break;
    case OSub: if (isC(a->a)) return mkEq(a->b, mkBin(OSub, a->a, b)); break;
    case OXor: if (isC(a->b)) return mkEq(a->a, mkBin(OXor, b, a->b)); break;
    case OIte: { int bud = 64; if (iteConst(a, bud)) return mapIte(OEq, a, b, false);
      if (isC(a->b)) { if (a->b != b) return mkAndB(mkNot(a->a), mkEq(a->d, b)); return mkOrB(a->a, mkEq(a->d, b)); }
      if (isC(a->d)) { if (a->d != b) return mkAndB(a->a, mkEq(a->b, b)); return mkOrB(mkNot(a->a), mkEq(a->b, b)); }
      break; }
    case OAnd: if (isC(a->b)) { APInt m = constOf(a->b), v = constOf(b); if ((v & ~m) != 0) return mkC(1, 0); } break;
    case OOr: if (isC(a->b)) { APInt m = constOf(a->b), v = constOf(b); if ((m & ~v) != 0) return mkC(1, 0); } break;
    default: break;
    }
  } else {
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == OConcat && b->op == OConcat && a->b->w == b->b->w) return mkAndB(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == OAdd && b->op == OAdd && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == OXor && (a->a == b)) return mkEq(a->b, mkC(w, 0));
    if (w == 1) return mkNot(mkBin(OXor, a, b));
    if (a->id > b->id) std::swap(a, b);
  }
  return mkRaw(OEq, 1, a, b);
}
E mkUlt(E a, E b) {
  uint32_t w = a->w;
  if (w != b->w) { fprintf(stderr, "ult width mismatch %u %u\n", a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkC(1, constOf(a).ult(constOf(b)));
  if (a == b) return mkC(1, 0);
  if (isZero(b)) return mkC(1, 0);
  if (isOnes(a)) return mkC(1, 0);
  if (isC(b) && constOf(b).isOne()) return mkEq(a, mkC(w, 0));
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (w == 1) return mkAndB(mkNot(a), b);
  uint32_t za = lz(a), zb = lz(b);
  if (isC(b)) { if (za > zb) return mkC(1, 1); }
  if (isC(a)) { if (zb > za) return mkC(1, 0); }
  uint32_t z = std::min(za, zb);
  if (z && (a->op == OZExt || b->op == OZExt)) { uint32_t nw = w - z; if (nw >= 1 && nw < w) {
      E ta = mkTrunc(a, nw), tb = mkTrunc(b, nw); return mkUlt(ta, tb); } }
  { int bud = 64; if (isC(b) && a->op == OIte && iteConst(a, bud)) return mapIte(OUlt, a, b, false); }
  { int bud = 64; if (isC(a) && b->op == OIte && iteConst(b, bud)) return mapIte(OUlt, b, a, true); }
  return mkRaw(OUlt, 1, a, b);
}
E mkUle(E a, E b) {
  uint32_t w = a->w;
  if (isC(a) && isC(b)) return mkC(1, constOf(a).ule(constOf(b)));
  if (a == b || isZero(a) || isOnes(b)) return mkC(1, 1);
  if (isC(b)) return mkUlt(a, mkBin(OAdd, b, mkC(w, 1)));
  if (isC(a)) return mkUlt(mkBin(OSub, a, mkC(w, 1)), b);
  if (w == 1) return mkOrB(mkNot(a), b);
  uint32_t za = lz(a), zb = lz(b), z = std::min(za, zb);
  if (z && z < w && (a->op == OZExt || b->op == OZExt)) { uint32_t nw = w - z; return mkUle(mkTrunc(a, nw), mkTrunc(b, nw)); }
  return mkRaw(OUle, 1, a, b);
}
E mkSlt(E a, E b) {
  uint32_t w = a->w;
  if (isC(a) && isC(b)) return mkC(1, constOf(a).slt(constOf(b)));
  if (a == b) return mkC(1, 0);
  if (w == 1) return mkAndB(a, mkNot(b));
  if (lz(a) && lz(b)) return mkUlt(a, b);
  if (isZero(b)) return mkExtract(a, w - 1, 1);
  if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->op == OSExt && isC(b)) { uint32_t n = a->a->w; if (mkSExt(mkTrunc(b, n), w) == b) return mkSlt(a->a, mkTrunc(b, n)); }
  if (b->op == OSExt && isC(a)) { uint32_t n = b->a->w; if (mkSExt(mkTrunc(a, n), w) == a) return mkSlt(mkTrunc(a, n), b->a); }
  { int bud = 64; if (isC(b) && a->op == OIte && iteConst(a, bud)) return mapIte(OSlt, a, b, false); }
  { int bud = 64; if (isC(a) && b->op == OIte && iteConst(b, bud)) return mapIte(OSlt, b, a, true); }
  return mkRaw(OSlt, 1, a, b);
}
E mkSle(E a, E b) {
  if (isC(a) && isC(b)) return mkC(1, constOf(a).sle(constOf(b)));
  if (a == b) return mkC(1, 1);
  if (isC(b) && !constOf(b).isMaxSignedValue()) return mkSlt(a, mkBin(OAdd, b, mkC(a->w, 1)));
  if (isC(a) && !constOf(a).isMinSignedValue()) return mkSlt(mkBin(OSub, a, mkC(a->w, 1)), b);
  if (a->w == 1) return mkOrB(a, mkNot(b));
  if (lz(a) && lz(b)) return mkUle(a, b);
  return mkRaw(OSle, 1, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == ONot) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOrB(c, b) : mkAndB(mkNot(c), b);
    if (isC(b)) return b->c ? mkOrB(mkNot(c), a) : mkAndB(c, a);
  }
  if (a->op == OIte && a->a == c) a = a->b;
  if (b->op == OIte && b->a == c) b = b->d;
  if (a == b) return a;
  if (b->op == OIte && b->b == a) return mkIte(mkOrB(c, b->a), a, b->d);
  return mkRaw(OIte, a->w, c, a, b);
}
E mkConcat(E hi, E lo) {
  if (!lo->w) return hi; if (!hi->w) return lo;
  uint32_t w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) { if (w <= 64) return mkC(w, (hi->c << lo->w) | lo->c); return mkBig(constOf(hi).concat(constOf(lo))); }
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->op == OConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  auto ex = [](E e, E &base, uint32_t &l) { if (e->op == OExtract) { base = e->a; l = e->c; } else { base = e; l = 0; } };
  E lh = lo->op == OConcat ? lo->a : lo;
  E bh, bl; uint32_t ph, pl; ex(hi, bh, ph); ex(lh, bl, pl);
  if (bh == bl && ph == pl + lh->w && hi->op == OExtract) {
    E m = mkExtract(bh, pl, hi->w + lh->w);
    return lo->op == OConcat ? mkConcat(m, lo->b) : m;
  }
  if (isC(hi) && lo->op == OConcat && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  // sign extension pattern: concat of ite(..) left alone
  if (hi->op == OIte && lo->op == OIte && hi->a == lo->a && isC(hi->b) && isC(hi->d) && isC(lo->b) && isC(lo->d))
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return mkRaw(OConcat, w, hi, lo);
}
E mkExtract(E a, uint32_t lo, uint32_t w) {
  if (w == 0) { return mkC(0, 0); }
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, a->w); abort(); }
  switch (a->op) {
  case OConst: if (a->w <= 64) return mkC(w, a->c >> lo); return mkBig(constOf(a).extractBits(w, lo));
  case OExtract: return mkExtract(a->a, a->c + lo, w);
  case OConcat: { uint32_t lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case OZExt: { uint32_t iw = a->a->w;
    if (lo >= iw) return mkC(w, 0);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  case OSExt: { uint32_t iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
  case OIte: if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
  case OAnd: case OOr: case OXor: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case OAdd: case OSub: case OMul: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  return mkRaw(OExtract, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, uint32_t w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "bad zext\n"); abort(); }
  if (a->w == 0) return mkC(w, 0);
  if (isC(a)) { if (w <= 64) return mkC(w, a->c); return mkBig(constOf(a).zext(w)); }
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return mkRaw(OZExt, w, a);
}
E mkSExt(E a, uint32_t w) {
  if (a->w == w) return a;
  if (isC(a)) { if (w <= 64) return mkC(w, (uint64_t)sextw(a->c, a->w)); return mkBig(constOf(a).sext(w)); }
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return mkRaw(OSExt, w, a);
}
static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","ite","concat","extract","zext","sext"};
std::string dumpE(E e, int depth) {
  if (isC(e)) { llvm::SmallString<64> s; constOf(e).toStringUnsigned(s, 16); return "#" + std::string(s.c_str()) + ":" + std::to_string(e->w); }
  if (e->op == OVar) return "v" + std::to_string(e->c) + ":" + std::to_string(e->w);
  if (!depth) return "...";
  std::string r = std::string("(") + opn[e->op] + (e->op == OExtract ? "[" + std::to_string(e->c) + "," + std::to_string(e->w) + "]" : ":" + std::to_string(e->w));
  for (E k : {e->a, e->b, e->d}) if (k) r += " " + dumpE(k, depth - 1);
  return r + ")";
}
