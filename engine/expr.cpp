#include "expr.hpp"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/SmallString.h"
#include <algorithm>
#include <map>
namespace sx {
std::vector<VarInfo> g_vars;
uint64_t g_nexpr = 0;

static inline uint64_t maskw(uint32_t w) {return w >= 64 ? ~0ull : ((1ull << w) - 1);}

struct Key {
  Kind k; uint32_t w, p; const Expr * a, * b, * c; uint64_t v;
  bool operator==(const Key & o) const {
    return k == o.k && w == o.w && p == o.p && a == o.a && b == o.b && c == o.c && v == o.v;
  }
};
struct KeyH {
  size_t operator()(const Key & k) const {
    uint64_t h = k.k * 0x9E3779B97F4A7C15ull + k.w * 1000003ull + k.p * 7919ull;
    auto mix = [&](uint64_t x) {h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;};
    mix(reinterpret_cast<uint64_t>(k.a)); mix(reinterpret_cast<uint64_t>(k.b));
    mix(reinterpret_cast<uint64_t>(k.c)); mix(k.v);
    return h;
  }
};
static std::unordered_map<Key, const Expr *, KeyH> & table()
{
  static auto * t = new std::unordered_map<Key, const Expr *, KeyH>(1 << 16);
  return *t;
}
static const VarSet * emptyVS() {static VarSet * e = new VarSet; return e;}
static const VarSet * internVS(std::vector<uint32_t> && v)
{
  static auto * t = new std::map<std::vector<uint32_t>, const VarSet *>;
  auto it = t->find(v);
  if (it != t->end()) {return it->second;}
  VarSet * s = new VarSet; s->v = v;
  (*t)[s->v] = s;
  return s;
}
static const VarSet * uniteVS(const VarSet * a, const VarSet * b)
{
  if (a == b || b->v.empty()) {return a;}
  if (a->v.empty()) {return b;}
  static auto * memo = new std::map<std::pair<const VarSet *, const VarSet *>, const VarSet *>;
  if (b < a) {std::swap(a, b);}
  auto it = memo->find({a, b});
  if (it != memo->end()) {return it->second;}
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet * s = internVS(std::move(r));
  (*memo)[{a, b}] = s;
  return s;
}

static const Expr * intern(Kind k, uint32_t w, uint32_t p, const Expr * a, const Expr * b,
  const Expr * c, uint64_t v)
{
  Key key{k, w, p, a, b, c, v};
  auto & t = table();
  auto it = t.find(key);
  if (it != t.end()) {return it->second;}
  Expr * e = new Expr;
  e->k = k; e->w = w; e->p = p; e->a = a; e->b = b; e->c = c; e->v = v; e->big = nullptr;
  e->id = static_cast<uint32_t>(g_nexpr++);
  const VarSet * s = emptyVS();
  if (k == VAR) {s = internVS({p});} else {
    if (a) {s = a->vs;}
    if (b) {s = uniteVS(s, b->vs);}
    if (c) {s = uniteVS(s, c->vs);}
  }
  e->vs = s;
  t.emplace(key, e);
  return e;
}

const Expr * mkC(uint32_t w, uint64_t v)
{
  if (w > 64) {return mkAP(APInt(w, v));}
  return intern(CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w));
}
const Expr * mkAP(const APInt & a)
{
  if (a.getBitWidth() <= 64) {return mkC(a.getBitWidth(), a.getZExtValue());}
  struct H {size_t operator()(const APInt & x) const {return llvm::hash_value(x);}};
  struct Q {bool operator()(const APInt & x, const APInt & y) const {
      return x.getBitWidth() == y.getBitWidth() && x == y;}};
  static auto * t = new std::unordered_map<APInt, const Expr *, H, Q>;
  auto it = t->find(a);
  if (it != t->end()) {return it->second;}
  Expr * e = new Expr;
  *e = Expr{CONST, a.getBitWidth(), static_cast<uint32_t>(g_nexpr++), 0, nullptr, nullptr, nullptr,
    0, new APInt(a), emptyVS()};
  (*t)[a] = e;
  return e;
}
APInt apOf(const Expr * e) {return e->big ? *e->big : APInt(e->w, e->v);}

const Expr * mkVar(const std::string & name, uint32_t w)
{
  static auto * t = new std::map<std::pair<std::string, uint32_t>, const Expr *>;
  auto it = t->find({name, w});
  if (it != t->end()) {return it->second;}
  uint32_t id = static_cast<uint32_t>(g_vars.size());
  g_vars.push_back({name, w, nullptr});
  const Expr * e = intern(VAR, w, id, nullptr, nullptr, nullptr, 0);
  g_vars[id].e = e;
  (*t)[{name, w}] = e;
  return e;
}

APInt foldBin(Kind k, const APInt & a, const APInt & b)
{
  unsigned w = a.getBitWidth();
  auto B = [](bool x) {return APInt(1, x ? 1 : 0);};
  switch (k) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case SDIV: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case UREM: return b.isZero() ? a : a.urem(b);
    case SREM: return b.isZero() ? a : a.srem(b);
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
    case EQ: return B(a == b);
    case ULT: return B(a.ult(b));
    case ULE: return B(a.ule(b));
    case SLT: return B(a.slt(b));
    case SLE: return B(a.sle(b));
    default: abort();
  }
}

static bool isZero(const Expr * e) {return e->isC() && apOf(e).isZero();}
static bool isOnes(const Expr * e) {return e->isC() && apOf(e).isAllOnes();}
static uint32_t resW(Kind k, uint32_t w) {return k >= EQ && k <= SLE ? 1 : w;}

// number of leading bits known to be zero
static uint32_t knownHighZero(const Expr * e)
{
  if (e->k == ZEXT) {return e->w - e->a->w + knownHighZero(e->a);}
  if (e->k == CONST) {return apOf(e).countl_zero();}
  if (e->k == CONCAT && isZero(e->a)) {return e->a->w + knownHighZero(e->b);}
  if (e->k == ITE) {return std::min(knownHighZero(e->b), knownHighZero(e->c));}
  return 0;
}

// an upper bound of the unsigned value (all ones when nothing is known)
static APInt umax(const Expr * e, int depth = 6)
{
  const APInt top = APInt::getAllOnes(e->w);
  if (e->k == CONST) {return apOf(e);}
  if (depth == 0) {return top;}
  bool o1 = false, o2 = false;
  switch (e->k) {
    case ZEXT: return umax(e->a, depth - 1).zext(e->w);
    case ITE: return llvm::APIntOps::umax(umax(e->b, depth - 1), umax(e->c, depth - 1));
    case ADD: {APInt r = umax(e->a, depth - 1).uadd_ov(umax(e->b, depth - 1), o1); return o1 ? top : r;}
    case MUL: {APInt r = umax(e->a, depth - 1).umul_ov(umax(e->b, depth - 1), o2); return o2 ? top : r;}
    case UDIV: return e->b->isC() && !isZero(e->b) ? umax(e->a, depth - 1).udiv(apOf(e->b)) : top;
    default: return top;
  }
}
// e == q * c + y without overflow, for a constant factor c in e
static bool linear(const Expr * e, const Expr * & q, const Expr * & c, const Expr * & y)
{
  if (e->k == MUL && e->b->isC()) {
    q = e->a; c = e->b; y = mkC(e->w, 0);
  } else if (e->k == ADD && e->a->k == MUL && e->a->b->isC()) {
    q = e->a->a; c = e->a->b; y = e->b;
  } else if (e->k == ADD && e->b->k == MUL && e->b->b->isC()) {
    q = e->b->a; c = e->b->b; y = e->a;
  } else {return false;}
  bool o = false;
  APInt m = umax(q).umul_ov(apOf(c), o);
  if (o || isZero(c)) {return false;}
  (void)m.uadd_ov(umax(y), o);
  return !o;
}

static bool constLeavesB(const Expr * e, int & budget)
{
  if (--budget < 0) {return false;}
  if (e->isC()) {return true;}
  if (e->k == ITE) {return constLeavesB(e->b, budget) && constLeavesB(e->c, budget);}
  return false;
}
static bool constLeaves(const Expr * e, int budget) {return constLeavesB(e, budget);}
static const Expr * distribute(Kind k, const Expr * ite, const Expr * cst, bool iteLeft)
{
  if (ite->isC()) {
    return mkAP(iteLeft ? foldBin(k, apOf(ite), apOf(cst)) : foldBin(k, apOf(cst), apOf(ite)));
  }
  return mkIte(ite->a, distribute(k, ite->b, cst, iteLeft), distribute(k, ite->c, cst, iteLeft));
}

const Expr * mkBin(Kind k, const Expr * a, const Expr * b)
{
  if (a->w != b->w) {
    fprintf(stderr, "mkBin width mismatch kind=%d %u vs %u\n", k, a->w, b->w); abort();
  }
  const uint32_t w = a->w;
  if (a->isC() && b->isC()) {return mkAP(foldBin(k, apOf(a), apOf(b)));}
  // canonical order for commutative operators: constant right, otherwise by id
  if (k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ) {
    if (a->isC() || (!b->isC() && a->id > b->id)) {std::swap(a, b);}
  }
  // ITE with constant leaves against a constant
  if (b->isC() && a->k == ITE && constLeaves(a, 400)) {return distribute(k, a, b, true);}
  if (a->isC() && b->k == ITE && constLeaves(b, 400)) {return distribute(k, b, a, false);}
  // keep multiplications and divisions by constants free of conditionals
  if ((k == MUL || k == UDIV || k == UREM) && b->isC() && a->k == ITE) {
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  }
  switch (k) {
    case ADD:
      if (isZero(b)) {return a;}
      if (b->isC() && a->k == ADD && a->b->isC()) {
        return mkBin(ADD, a->a, mkAP(apOf(a->b) + apOf(b)));
      }
      if (!b->isC() && a->k == ADD && a->b->isC()) {
        return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
      }
      if (b->k == ADD && b->b->isC()) {return mkBin(ADD, mkBin(ADD, a, b->a), b->b);}
      if (b->k == SUB && b->b == a) {return b->a;}
      if (a->k == SUB && a->b == b) {return a->a;}
      break;
    case SUB:
      if (a == b) {return mkC(w, 0);}
      if (isZero(b)) {return a;}
      if (b->isC()) {return mkBin(ADD, a, mkAP(-apOf(b)));}
      if (a->k == ADD) {
        if (a->a == b) {return a->b;}
        if (a->b == b) {return a->a;}
        if (a->b->isC()) {return mkBin(ADD, mkBin(SUB, a->a, b), a->b);}
      }
      if (b->k == ADD && b->b->isC()) {
        return mkBin(ADD, mkBin(SUB, a, b->a), mkAP(-apOf(b->b)));
      }
      break;
    case MUL:
      if (isZero(b)) {return b;}
      if (b->isC() && apOf(b) == 1) {return a;}
      if (b->isC() && apOf(b).isPowerOf2()) {
        return mkBin(SHL, a, mkC(w, apOf(b).logBase2()));
      }
      break;
    case UDIV:
      if (b->isC() && apOf(b) == 1) {return a;}
      if (b->isC() && !isZero(b) && !apOf(b).isPowerOf2()) {
        const Expr * q, * c, * y;
        if (a->k == ZEXT) {
          if (apOf(b).getActiveBits() > a->a->w) {return mkC(w, 0);}
          return mkZExt(mkBin(UDIV, a->a, mkAP(apOf(b).trunc(a->a->w))), w);
        }
        if (linear(a, q, c, y) && c == b) {return mkBin(ADD, q, mkBin(UDIV, y, c));}
      }
      if (b->isC() && apOf(b).isPowerOf2()) {return mkBin(LSHR, a, mkC(w, apOf(b).logBase2()));}
      break;
    case UREM:
      if (b->isC() && apOf(b) == 1) {return mkC(w, 0);}
      if (b->isC() && apOf(b).isPowerOf2()) {return mkBin(AND, a, mkAP(apOf(b) - 1));}
      if (b->isC() && !isZero(b)) {
        const Expr * q, * c, * y;
        if (a->k == ZEXT) {
          if (apOf(b).getActiveBits() > a->a->w) {return a;}
          return mkZExt(mkBin(UREM, a->a, mkAP(apOf(b).trunc(a->a->w))), w);
        }
        if (linear(a, q, c, y) && c == b) {return mkBin(UREM, y, c);}
        return mkBin(SUB, a, mkBin(MUL, mkBin(UDIV, a, b), b));
      }
      break;
    case SDIV: case SREM: break;
    case AND:
      if (a == b) {return a;}
      if (isZero(b)) {return b;}
      if (isOnes(b)) {return a;}
      if (b->isC() && apOf(b).isMask()) {
        uint32_t n = apOf(b).countr_one();
        return mkZExt(mkExtract(a, 0, n), w);
      }
      if (b->isC() && a->k == AND && a->b->isC()) {
        return mkBin(AND, a->a, mkAP(apOf(a->b) & apOf(b)));
      }
      if (b->isC() && (a->k == ZEXT || a->k == CONCAT)) {
        if (a->k == ZEXT) {
          return mkZExt(mkBin(AND, a->a, mkAP(apOf(b).trunc(a->a->w))), w);
        }
        uint32_t lw = a->b->w;
        return mkConcat(mkBin(AND, a->a, mkAP(apOf(b).lshr(lw).trunc(w - lw))),
                 mkBin(AND, a->b, mkAP(apOf(b).trunc(lw))));
      }
      if (w == 1) {
        if ((a->k == NOT && a->a == b) || (b->k == NOT && b->a == a)) {return mkC(1, 0);}
        if (b->k == AND && (b->a == a || b->b == a)) {return b;}
        if (a->k == AND && (a->a == b || a->b == b)) {return a;}
        if (b->k == OR && (b->a == a || b->b == a)) {return a;}
        if (a->k == OR && (a->a == b || a->b == b)) {return b;}
      }
      break;
    case OR:
      if (a == b) {return a;}
      if (isZero(b)) {return a;}
      if (isOnes(b)) {return b;}
      if (w == 1) {
        if ((a->k == NOT && a->a == b) || (b->k == NOT && b->a == a)) {return mkC(1, 1);}
        if (b->k == OR && (b->a == a || b->b == a)) {return b;}
        if (a->k == OR && (a->a == b || a->b == b)) {return a;}
        if (b->k == AND && (b->a == a || b->b == a)) {return a;}
        if (a->k == AND && (a->a == b || a->b == b)) {return b;}
      } else {
        for (int s = 0; s < 2; s++) {
          const Expr * x = s ? b : a, * y = s ? a : b;
          if (x->k == CONCAT && isZero(x->b) && knownHighZero(y) >= x->a->w) {
            return mkConcat(x->a, mkExtract(y, 0, x->b->w));
          }
        }
      }
      break;
    case XOR:
      if (a == b) {return mkC(w, 0);}
      if (isZero(b)) {return a;}
      if (isOnes(b)) {return mkNot(a);}
      break;
    case SHL: case LSHR: case ASHR:
      if (isZero(b)) {return a;}
      if (isZero(a)) {return a;}
      if (b->isC()) {
        APInt s = apOf(b);
        if (s.uge(w)) {
          if (k != ASHR) {return mkC(w, 0);}
          return mkSExt(mkExtract(a, w - 1, 1), w);
        }
        uint32_t n = static_cast<uint32_t>(s.getZExtValue());
        if (k == SHL) {return mkConcat(mkExtract(a, 0, w - n), mkC(n, 0));}
        if (k == LSHR) {return mkZExt(mkExtract(a, n, w - n), w);}
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    case EQ:
      if (a == b) {return mkC(1, 1);}
      if (w == 1 && b->isC()) {return b->v ? a : mkNot(a);}
      if (b->isC()) {
        APInt cb = apOf(b);
        if (a->k == ZEXT) {
          if (cb.countl_zero() < w - a->a->w) {return mkC(1, 0);}
          return mkEq(a->a, mkAP(cb.trunc(a->a->w)));
        }
        if (a->k == SEXT) {
          APInt t = cb.trunc(a->a->w);
          if (t.sext(w) != cb) {return mkC(1, 0);}
          return mkEq(a->a, mkAP(t));
        }
        if (a->k == ADD && a->b->isC()) {return mkEq(a->a, mkAP(cb - apOf(a->b)));}
        if (a->k == XOR && a->b->isC()) {return mkEq(a->a, mkAP(cb ^ apOf(a->b)));}
        if (a->k == NOT) {return mkEq(a->a, mkAP(~cb));}
        if (a->k == SUB && cb.isZero()) {return mkEq(a->a, a->b);}
        if (a->k == CONCAT) {
          uint32_t lw = a->b->w;
          return mkAnd(mkEq(a->a, mkAP(cb.lshr(lw).trunc(w - lw))), mkEq(a->b, mkAP(cb.trunc(lw))));
        }
        if (a->k == ITE && (a->b->isC() || a->c->isC())) {
          return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        }
      } else {
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) {return mkEq(a->a, b->a);}
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) {return mkEq(a->a, b->a);}
        if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) {
          return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        }
        if (a->k == ADD && b->k == ADD && a->b->isC() && b->b->isC()) {
          return mkEq(a->a, mkBin(ADD, b->a, mkAP(apOf(b->b) - apOf(a->b))));
        }
        if (a->k == ADD && a->a == b) {return mkEq(a->b, mkC(w, 0));}
        if (a->k == ADD && a->b == b) {return mkEq(a->a, mkC(w, 0));}
        if (b->k == ADD && b->a == a) {return mkEq(b->b, mkC(w, 0));}
        if (b->k == ADD && b->b == a) {return mkEq(b->a, mkC(w, 0));}
        if (w == 1 && ((a->k == NOT && a->a == b) || (b->k == NOT && b->a == a))) {return mkC(1, 0);}
      }
      break;
    case ULT:
      if (a == b || isZero(b) || isOnes(a)) {return mkC(1, 0);}
      if (b->isC() && apOf(b) == 1) {return mkEq(a, mkC(w, 0));}
      if (isZero(a)) {return mkNot(mkEq(b, a));}
      if (w > 64 && (a->isC() || b->isC())) {  // q * c + y against a constant, without the product
        const Expr * q, * c, * y, * k0 = a->isC() ? a : b;
        if (linear(a->isC() ? b : a, q, c, y)) {
          const Expr * hi = mkBin(ADD, q, mkBin(UDIV, y, c)), * lo = mkBin(UREM, y, c);
          const Expr * kh = mkAP(apOf(k0).udiv(apOf(c))), * kl = mkAP(apOf(k0).urem(apOf(c)));
          if (k0 == b) {return mkOr(mkBin(ULT, hi, kh), mkAnd(mkEq(hi, kh), mkBin(ULT, lo, kl)));}
          return mkOr(mkBin(ULT, kh, hi), mkAnd(mkEq(hi, kh), mkBin(ULT, kl, lo)));
        }
      }
      if (b->isC() && a->k == ZEXT) {
        if (apOf(b).getActiveBits() > a->a->w) {return mkC(1, 1);}
        return mkBin(ULT, a->a, mkAP(apOf(b).trunc(a->a->w)));
      }
      if (a->isC() && b->k == ZEXT) {
        if (apOf(a).getActiveBits() > b->a->w) {return mkC(1, 0);}
        return mkBin(ULT, mkAP(apOf(a).trunc(b->a->w)), b->a);
      }
      if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) {return mkBin(ULT, a->a, b->a);}
      if (a->k == CONCAT && b->k == CONCAT && a->a == b->a) {return mkBin(ULT, a->b, b->b);}
      if (a->k == CONCAT && b->k == CONCAT && a->b == b->b && a->a->w == b->a->w) {
        return mkBin(ULT, a->a, b->a);
      }
      break;
    case ULE:
      if (a == b || isZero(a) || isOnes(b)) {return mkC(1, 1);}
      if (isZero(b)) {return mkEq(a, b);}
      if (b->isC()) {return mkBin(ULT, a, mkAP(apOf(b) + 1));}
      if (a->isC()) {return mkBin(ULT, mkAP(apOf(a) - 1), b);}
      if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) {return mkBin(ULE, a->a, b->a);}
      if (a->k == CONCAT && b->k == CONCAT && a->a == b->a) {return mkBin(ULE, a->b, b->b);}
      if (a->k == CONCAT && b->k == CONCAT && a->b == b->b && a->a->w == b->a->w) {
        return mkBin(ULE, a->a, b->a);
      }
      break;
    case SLT: case SLE:
      if (a == b) {return mkC(1, k == SLE);}
      if (knownHighZero(a) > 0 && knownHighZero(b) > 0) {return mkBin(k == SLT ? ULT : ULE, a, b);}
      if (b->isC() && knownHighZero(a) > 0 && apOf(b).isNegative()) {return mkC(1, 0);}
      if (a->isC() && knownHighZero(b) > 0 && apOf(a).isNegative()) {return mkC(1, 1);}
      if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) {return mkBin(k, a->a, b->a);}
      if (k == SLT && isZero(b) && a->k == SEXT) {return mkBin(SLT, a->a, mkC(a->a->w, 0));}
      if (k == SLT && b->isC() && a->k == SEXT) {
        APInt t = apOf(b).trunc(a->a->w);
        if (t.sext(w) == apOf(b)) {return mkBin(SLT, a->a, mkAP(t));}
        return mkC(1, !apOf(b).isNegative());
      }
      break;
    default: break;
  }
  return intern(k, resW(k, w), 0, a, b, nullptr, 0);
}

const Expr * mkNot(const Expr * a)
{
  if (a->isC()) {return mkAP(~apOf(a));}
  if (a->k == NOT) {return a->a;}
  if (a->w == 1) {
    switch (a->k) {
      case ULT: return mkBin(ULE, a->b, a->a);
      case ULE: return mkBin(ULT, a->b, a->a);
      case SLT: return mkBin(SLE, a->b, a->a);
      case SLE: return mkBin(SLT, a->b, a->a);
      default: break;
    }
    if (a->k == ITE && constLeaves(a, 100)) {return mkIte(a->a, mkNot(a->b), mkNot(a->c));}
  }
  return intern(NOT, a->w, 0, a, nullptr, nullptr, 0);
}

const Expr * mkExtract(const Expr * a, uint32_t lo, uint32_t w)
{
  if (lo + w > a->w || w == 0) {fprintf(stderr, "mkExtract bad %u+%u of %u\n", lo, w, a->w); abort();}
  if (lo == 0 && w == a->w) {return a;}
  switch (a->k) {
    case CONST: return mkAP(apOf(a).extractBits(w, lo));
    case EXTRACT: return mkExtract(a->a, a->p + lo, w);
    case CONCAT: {
        uint32_t lw = a->b->w;
        if (lo + w <= lw) {return mkExtract(a->b, lo, w);}
        if (lo >= lw) {return mkExtract(a->a, lo - lw, w);}
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
      }
    case ZEXT: {
        uint32_t iw = a->a->w;
        if (lo >= iw) {return mkC(w, 0);}
        if (lo + w <= iw) {return mkExtract(a->a, lo, w);}
        return mkZExt(mkExtract(a->a, lo, iw - lo), w);
      }
    case SEXT: {
        uint32_t iw = a->a->w;
        if (lo + w <= iw) {return mkExtract(a->a, lo, w);}
        if (lo < iw) {return mkSExt(mkExtract(a->a, lo, iw - lo), w);}
        return mkSExt(mkExtract(a->a, iw - 1, 1), w);
      }
    case ITE:
      if (a->b->isC() || a->c->isC()) {
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      }
      break;
    case AND: case OR: case XOR:
      if (a->b->isC()) {
        return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      }
      break;
    case NOT: return mkNot(mkExtract(a->a, lo, w));
    case ADD: case MUL:
      if (lo == 0 && a->b->isC()) {return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));}
      break;
    default: break;
  }
  return intern(EXTRACT, w, lo, a, nullptr, nullptr, 0);
}

const Expr * mkConcat(const Expr * hi, const Expr * lo)
{
  if (hi->isC() && lo->isC()) {return mkAP(apOf(hi).concat(apOf(lo)));}
  if (isZero(hi)) {return mkZExt(lo, hi->w + lo->w);}
  if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->p == lo->p + lo->w) {
    return mkExtract(hi->a, lo->p, hi->w + lo->w);
  }
  if (lo->k == CONCAT) {
    const Expr * m = lo->a;
    if ((hi->k == EXTRACT && m->k == EXTRACT && hi->a == m->a && hi->p == m->p + m->w) ||
      (hi->isC() && m->isC()))
    {
      return mkConcat(mkConcat(hi, m), lo->b);
    }
  }
  // whole value whose low part is an extract of itself cannot occur; extract of full low value:
  if (hi->k == EXTRACT && hi->a == lo && hi->p == lo->w) {return mkExtract(hi->a, 0, hi->w + lo->w);}
  // right-nest
  if (hi->k == CONCAT) {return mkConcat(hi->a, mkConcat(hi->b, lo));}
  return intern(CONCAT, hi->w + lo->w, 0, hi, lo, nullptr, 0);
}

const Expr * mkZExt(const Expr * a, uint32_t w)
{
  if (a->w == w) {return a;}
  if (a->isC()) {return mkAP(apOf(a).zext(w));}
  if (a->k == ZEXT) {return mkZExt(a->a, w);}
  if (a->k == ITE && constLeaves(a, 400)) {return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));}
  return intern(ZEXT, w, 0, a, nullptr, nullptr, 0);
}
const Expr * mkSExt(const Expr * a, uint32_t w)
{
  if (a->w == w) {return a;}
  if (a->isC()) {return mkAP(apOf(a).sext(w));}
  if (a->k == SEXT) {return mkSExt(a->a, w);}
  if (a->k == ZEXT) {return mkZExt(a->a, w);}
  if (a->k == ITE && constLeaves(a, 400)) {return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));}
  return intern(SEXT, w, 0, a, nullptr, nullptr, 0);
}
const Expr * mkIte(const Expr * c, const Expr * a, const Expr * b)
{
  if (a->w != b->w || c->w != 1) {fprintf(stderr, "mkIte width mismatch\n"); abort();}
  if (c->isC()) {return c->v ? a : b;}
  if (a == b) {return a;}
  if (c->k == NOT) {return mkIte(c->a, b, a);}
  if (a->k == ITE && a->a == c) {a = a->b;}
  if (b->k == ITE && b->a == c) {b = b->c;}
  if (a == b) {return a;}
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) {return c;}
    if (isFalse(a) && isTrue(b)) {return mkNot(c);}
    if (isTrue(a)) {return mkOr(c, b);}
    if (isFalse(a)) {return mkAnd(mkNot(c), b);}
    if (isFalse(b)) {return mkAnd(c, a);}
    if (isTrue(b)) {return mkOr(mkNot(c), a);}
    if (a == c) {return mkOr(c, b);}
    if (b == c) {return mkAnd(c, a);}
  }
  return intern(ITE, a->w, 0, c, a, b, 0);
}

namespace {
struct EvalCache { std::unordered_map<const Expr *, APInt> big; };
}
static uint64_t ev64(const Expr * e, const Model & m, std::unordered_map<const Expr *, uint64_t> & memo);
static APInt evA(const Expr * e, const Model & m, std::unordered_map<const Expr *, uint64_t> & memo)
{
  if (e->w <= 64) {return APInt(e->w, ev64(e, m, memo));}
  switch (e->k) {
    case CONST: return apOf(e);
    case CONCAT: return evA(e->a, m, memo).concat(evA(e->b, m, memo));
    case ZEXT: return evA(e->a, m, memo).zext(e->w);
    case SEXT: return evA(e->a, m, memo).sext(e->w);
    case NOT: return ~evA(e->a, m, memo);
    case ITE: return ev64(e->a, m, memo) ? evA(e->b, m, memo) : evA(e->c, m, memo);
    case EXTRACT: return evA(e->a, m, memo).extractBits(e->w, e->p);
    default: return foldBin(e->k, evA(e->a, m, memo), evA(e->b, m, memo));
  }
}
static uint64_t ev64(const Expr * e, const Model & m, std::unordered_map<const Expr *, uint64_t> & memo)
{
  if (e->k == CONST) {return e->v;}
  if (e->k == VAR) {return m.get(e->p) & maskw(e->w);}
  auto it = memo.find(e);
  if (it != memo.end()) {return it->second;}
  uint64_t r;
  auto sx = [&](uint64_t v, uint32_t w) -> int64_t {
      return w >= 64 ? static_cast<int64_t>(v) : (static_cast<int64_t>(v << (64 - w)) >> (64 - w));
    };
  switch (e->k) {
    case ITE: r = ev64(e->a, m, memo) ? ev64(e->b, m, memo) : ev64(e->c, m, memo); break;
    case NOT: r = ~ev64(e->a, m, memo) & maskw(e->w); break;
    case ZEXT: r = ev64(e->a, m, memo); break;
    case SEXT: r = static_cast<uint64_t>(sx(ev64(e->a, m, memo), e->a->w)) & maskw(e->w); break;
    case CONCAT: r = (ev64(e->a, m, memo) << e->b->w) | ev64(e->b, m, memo); break;
    case EXTRACT:
      if (e->a->w <= 64) {r = (ev64(e->a, m, memo) >> e->p) & maskw(e->w);} else {
        r = evA(e->a, m, memo).extractBits(e->w, e->p).getZExtValue();
      }
      break;
    default:
      if (e->a->w <= 64) {
        uint64_t x = ev64(e->a, m, memo), y = ev64(e->b, m, memo); uint32_t w = e->a->w;
        switch (e->k) {
          case ADD: r = (x + y) & maskw(w); break;
          case SUB: r = (x - y) & maskw(w); break;
          case MUL: r = (x * y) & maskw(w); break;
          case AND: r = x & y; break;
          case OR: r = x | y; break;
          case XOR: r = x ^ y; break;
          case EQ: r = x == y; break;
          case ULT: r = x < y; break;
          case ULE: r = x <= y; break;
          case SLT: r = sx(x, w) < sx(y, w); break;
          case SLE: r = sx(x, w) <= sx(y, w); break;
          default: r = foldBin(e->k, APInt(w, x), APInt(w, y)).getZExtValue(); break;
        }
      } else {
        r = foldBin(e->k, evA(e->a, m, memo), evA(e->b, m, memo)).getZExtValue();
      }
  }
  memo[e] = r;
  return r;
}
APInt evalExpr(const Expr * e, const Model & m)
{
  std::unordered_map<const Expr *, uint64_t> memo;
  return evA(e, m, memo);
}
bool evalBool(const Expr * e, const Model & m)
{
  std::unordered_map<const Expr *, uint64_t> memo;
  return ev64(e, m, memo) != 0;
}

std::string exprStr(const Expr * e, int depth)
{
  static const char * nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
    "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat",
    "extract", "zext", "sext", "ite"};
  if (e->k == CONST) {llvm::SmallString<40> s; apOf(e).toStringUnsigned(s); return s.str().str();}
  if (e->k == VAR) {return g_vars[e->p].name;}
  if (depth == 0) {return "...";}
  std::string r = "(" + std::string(nm[e->k]);
  if (e->k == EXTRACT) {r += "[" + std::to_string(e->p) + "+" + std::to_string(e->w) + "]";}
  if (e->k == ZEXT || e->k == SEXT) {r += std::to_string(e->w);}
  for (const Expr * x : {e->a, e->b, e->c}) {if (x) {r += " " + exprStr(x, depth - 1);}}
  return r + ")";
}
}  // namespace sx
