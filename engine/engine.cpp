#include "engine.hpp"
#include "llvm/ADT/APSInt.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>
#include "llvm/ADT/APFloat.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
namespace sx {

static const uint64_t PAGE = 4096;
static inline uint64_t baseOf(uint32_t id) {return ((static_cast<uint64_t>(id) + 16) << 24) + PAGE;}

Engine::Engine(Module & m)
: M(m), DL(m.getDataLayout()) {regBuiltins();}

uint32_t Engine::bits(Type * t)
{
  if (t->isIntegerTy()) {return t->getIntegerBitWidth();}
  if (t->isPointerTy()) {return 64;}
  if (t->isFloatingPointTy()) {return t->getPrimitiveSizeInBits().getFixedValue();}
  return 0;
}

// ---------------------------------------------------------------- objects
Obj * Engine::newObj(State & s, uint64_t size, OK kind, const std::string & name, bool uninit)
{
  Obj * o = new Obj;
  o->size = size; o->kind = kind; o->name = name;
  o->d.assign(size, 0);
  if (uninit && size) {
    o->st.assign(size, B_UNINIT);
    o->sym.assign(size, nullptr);
  }
  uint32_t idx = static_cast<uint32_t>(s.mem.size());
  s.mem.push_back(ObjRef(o));
  o->id = idx;
  o->base = baseOf(idx);
  return o;
}
Obj * Engine::find(State & s, uint64_t addr)
{
  uint64_t h = addr >> 24;
  if (h < 16) {return nullptr;}
  h -= 16;
  if (h >= s.mem.size()) {return nullptr;}
  return s.mem[h].p;
}
Obj * Engine::own(State & s, uint32_t idx)
{
  Obj * o = s.mem[idx].p;
  if (o->refs > 1) {
    Obj * n = new Obj(*o);
    n->refs = 0;
    s.mem[idx] = ObjRef(n);
    return n;
  }
  return o;
}
static std::string hexs(uint64_t v) {char b[32]; snprintf(b, sizeof b, "0x%lx", v); return b;}

Obj * Engine::rd(State & s, uint64_t addr, uint64_t n, const char * what)
{
  Obj * o = find(s, addr);
  if (!o) {
    violate(s, "memory", std::string(what) + (addr < (16ull << 24) ? " through a null/wild pointer " :
      " through a dangling stack pointer ") + hexs(addr), nullptr);
    throw PathEnd{"violation"};
  }
  if (o->freed) {
    violate(s, "memory", std::string(what) + " of freed memory (" + o->name + ")", nullptr);
    throw PathEnd{"violation"};
  }
  uint64_t off = addr - o->base;
  if (addr < o->base || off > o->size || n > o->size - off) {
    violate(s, "memory", std::string(what) + " out of bounds: offset " +
      std::to_string(static_cast<int64_t>(off)) + " size " + std::to_string(n) + " of object " + o->name +
      " of " + std::to_string(o->size) + " bytes", nullptr);
    throw PathEnd{"violation"};
  }
  if (o->kind == OK::Func) {
    violate(s, "memory", std::string(what) + " of code", nullptr);
    throw PathEnd{"violation"};
  }
  return o;
}
Obj * Engine::wr(State & s, uint64_t addr, uint64_t n, const char * what)
{
  Obj * o = rd(s, addr, n, what);
  if (o->kind == OK::Const) {
    violate(s, "memory", "write to constant " + o->name, nullptr);
    throw PathEnd{"violation"};
  }
  return own(s, o->id);
}
void Engine::access(State & s, Obj * o, uint64_t off, uint64_t n, bool write)
{
  if (s.th.size() < 2 || o->norace || o->kind == OK::Const || o->kind == OK::Tls || n == 0) {return;}
  o = own(s, o->id);
  if (o->sh.size() < o->size) {o->sh.resize(o->size);}
  int t = static_cast<int>(s.cur);
  VC & vc = s.th[t].vc;
  for (uint64_t i = off; i < off + n; i++) {
    ByteSh & b = o->sh[i];
    bool race = b.wt >= 0 && b.wt != t && b.wc > vc[b.wt];
    if (write && !race) {
      for (int k = 0; k < 5; k++) {if (k != t && b.rc[k] > vc[k]) {race = true;}}
    }
    if (race) {
      violate(s, "race", "data race on " + o->name + " (thread " + std::to_string(t) +
        (write ? " writes" : " reads") + ")", nullptr);
      throw PathEnd{"violation"};
    }
    if (write) {b.wt = static_cast<int8_t>(t); b.wc = vc[t];} else {b.rc[t] = vc[t];}
  }
}
const Expr * Engine::byteAt(State & s, Obj *& o, uint64_t off)
{
  if (o->st.empty() || o->st[off] == B_CONC) {return mkC(8, o->d[off]);}
  if (o->st[off] == B_SYM) {return o->sym[off];}
  o = own(s, o->id);
  const Expr * v = mkVar("uninit#" + std::to_string(s.uninit++), 8);
  o->st[off] = B_SYM; o->sym[off] = v;
  return v;
}
Val Engine::readObj(State & s, Obj * o, uint64_t off, uint32_t nbytes, uint32_t w)
{
  bool allc = o->st.empty();
  if (!allc) {
    allc = true;
    for (uint32_t i = 0; i < nbytes; i++) {if (o->st[off + i] != B_CONC) {allc = false; break;}}
  }
  if (allc && nbytes <= 8) {
    uint64_t v = 0;
    memcpy(&v, o->d.data() + off, nbytes);
    return vC(w, v);
  }
  const Expr * e = byteAt(s, o, off);
  for (uint32_t i = 1; i < nbytes; i++) {e = mkConcat(byteAt(s, o, off + i), e);}
  if (e->w > w) {e = mkExtract(e, 0, w);}
  return vE(e);
}
void Engine::writeObj(State &, Obj * o, uint64_t off, const Val & v, uint32_t nbytes)
{
  if (conc(v) && nbytes <= 8) {
    memcpy(o->d.data() + off, &v.c, nbytes);
    if (!o->st.empty()) {memset(o->st.data() + off, B_CONC, nbytes);}
    return;
  }
  if (o->st.empty()) {o->st.assign(o->size, B_CONC); o->sym.assign(o->size, nullptr);}
  const Expr * e = toE(v);
  if (e->w < nbytes * 8) {e = mkZExt(e, nbytes * 8);}
  for (uint32_t i = 0; i < nbytes; i++) {
    const Expr * b = mkExtract(e, 8 * i, 8);
    if (b->isC()) {o->d[off + i] = static_cast<uint8_t>(b->v); o->st[off + i] = B_CONC;} else {
      o->st[off + i] = B_SYM; o->sym[off + i] = b;
    }
  }
}
// Aggregates are kept for good: equal ones once.
static const std::vector<Val> * keep(const std::vector<Val> * a)
{
  struct Hash {
    size_t operator()(const std::vector<Val> * v) const
    {
      size_t h = v->size();
      for (auto & x : *v) {h = (h ^ x.c ^ reinterpret_cast<uintptr_t>(x.e) ^ reinterpret_cast<uintptr_t>(x.agg) ^ x.w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;}
      return h;
    }
  };
  struct Eq {
    bool operator()(const std::vector<Val> * a, const std::vector<Val> * b) const
    {
      return std::equal(a->begin(), a->end(), b->begin(), b->end(), [](const Val & x, const Val & y) {
          return x.c == y.c && x.e == y.e && x.agg == y.agg && x.w == y.w;
        });
    }
  };
  static std::unordered_set<const std::vector<Val> *, Hash, Eq> all;
  auto r = all.insert(a);
  if (!r.second) {delete a;}
  return *r.first;
}
Val Engine::loadAt(State & s, uint64_t addr, Type * T)
{
  if (T->isStructTy() || T->isArrayTy()) {
    auto * agg = new std::vector<Val>;
    if (auto * ST = dyn_cast<StructType>(T)) {
      const StructLayout * L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) {
        agg->push_back(loadAt(s, addr + L->getElementOffset(i), ST->getElementType(i)));
      }
    } else {
      auto * AT = cast<ArrayType>(T);
      uint64_t es = DL.getTypeAllocSize(AT->getElementType());
      for (uint64_t i = 0; i < AT->getNumElements(); i++) {
        agg->push_back(loadAt(s, addr + i * es, AT->getElementType()));
      }
    }
    Val v; v.agg = keep(agg); v.w = 0;
    return v;
  }
  uint32_t n = static_cast<uint32_t>(DL.getTypeStoreSize(T).getFixedValue());
  Obj * o = rd(s, addr, n, "read");
  access(s, o, addr - o->base, n, false);
  o = find(s, addr);
  if (T->isVectorTy()) {engineError(s, "vector load");}
  return readObj(s, o, addr - o->base, n, bits(T));
}
void Engine::storeAt(State & s, uint64_t addr, const Val & v, Type * T)
{
  if (v.agg) {
    if (auto * ST = dyn_cast<StructType>(T)) {
      const StructLayout * L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) {
        storeAt(s, addr + L->getElementOffset(i), (*v.agg)[i], ST->getElementType(i));
      }
    } else {
      auto * AT = cast<ArrayType>(T);
      uint64_t es = DL.getTypeAllocSize(AT->getElementType());
      for (uint64_t i = 0; i < AT->getNumElements(); i++) {
        storeAt(s, addr + i * es, (*v.agg)[i], AT->getElementType());
      }
    }
    return;
  }
  if (T->isVectorTy()) {engineError(s, "vector store");}
  uint32_t n = static_cast<uint32_t>(DL.getTypeStoreSize(T).getFixedValue());
  Obj * o = wr(s, addr, n, "write");
  access(s, o, addr - o->base, n, true);
  o = own(s, o->id);
  writeObj(s, o, addr - o->base, v, n);
}

static uint32_t lowZeros(const Expr * e)
{
  switch (e->k) {
    case CONST: return apOf(e).countr_zero();
    case CONCAT: return e->b->isC() && apOf(e->b).isZero() ? e->b->w + lowZeros(e->a) : lowZeros(e->b);
    case ADD: return std::min(lowZeros(e->a), lowZeros(e->b));
    case ZEXT: case SEXT: return lowZeros(e->a);
    case ITE: return std::min(lowZeros(e->b), lowZeros(e->c));
    case MUL: return lowZeros(e->a) + lowZeros(e->b);
    default: return 0;
  }
}

Val Engine::load(State & s, const Val & a, Type * T)
{
  if (conc(a)) {return loadAt(s, a.c, T);}
  const Expr * e = a.e;
  uint64_t v = evalExpr(e, s.model).getZExtValue();
  Model m;
  Res r = checkSat(s.cs, mkNot(mkEq(e, mkC(64, v))), s.model, m);
  if (r == Res::UNSAT) {return loadAt(s, v, T);}
  if (r == Res::UNKNOWN) {engineError(s, "solver timeout on an address");}
  Obj * o = find(s, v);
  uint64_t n = DL.getTypeStoreSize(T).getFixedValue();
  if (!o || o->freed || v < o->base || v - o->base + n > o->size || T->isAggregateType() || n > 8) {
    return loadAt(s, concretize(s, a), T);
  }
  // whole address range inside this object?
  const Expr * off = mkBin(SUB, e, mkC(64, o->base));
  const Expr * inb = mkBin(ULE, off, mkC(64, o->size - n));
  bool taken;
  fork(s, inb, taken);   // the other side (another object, or out of bounds) is explored separately
  if (!taken) {return loadAt(s, concretize(s, a), T);}
  uint32_t z = std::min<uint32_t>(lowZeros(off), 12);
  uint64_t step = 1ull << z;
  uint64_t cnt = (o->size - n) / step + 1;
  if (cnt > 2048) {return loadAt(s, concretize(s, a), T);}
  access(s, o, 0, o->size, false);
  o = find(s, v);
  uint32_t w = bits(T);
  std::vector<std::pair<uint64_t, const Expr *>> runs;   // (end offset exclusive, value)
  for (uint64_t i = 0; i < cnt; i++) {
    const Expr * x = toE(readObj(s, find(s, v), i * step, static_cast<uint32_t>(n), w));
    if (!runs.empty() && runs.back().second == x) {runs.back().first = (i + 1) * step;} else {
      runs.push_back({(i + 1) * step, x});
    }
  }
  const Expr * res = runs.back().second;
  for (size_t i = runs.size() - 1; i-- > 0; ) {
    res = mkIte(mkBin(ULT, off, mkC(64, runs[i].first)), runs[i].second, res);
  }
  return vE(res);
}
void Engine::store(State & s, const Val & a, const Val & v, Type * T)
{
  storeAt(s, concretize(s, a), v, T);
}

std::string Engine::readStr(State & s, uint64_t addr)
{
  std::string r;
  for (;; addr++) {
    Obj * o = rd(s, addr, 1, "read");
    Val b = readObj(s, o, addr - o->base, 1, 8);
    uint8_t c = static_cast<uint8_t>(conc(b) ? b.c : evalExpr(b.e, s.model).getZExtValue());
    if (!c || r.size() > 400) {return r;}
    r += static_cast<char>(c);
  }
}

void Engine::doFree(State & s, uint64_t addr, uint8_t how)
{
  if (addr == 0) {return;}
  Obj * o = find(s, addr);
  if (!o || o->kind != OK::Heap || addr != o->base) {
    violate(s, "memory", "free of a pointer that is not a heap block: " + hexs(addr), nullptr);
    throw PathEnd{"violation"};
  }
  if (o->freed) {
    violate(s, "memory", "double free of " + o->name, nullptr);
    throw PathEnd{"violation"};
  }
  if (o->how != how) {
    violate(s, "memory", std::string("mismatched release: allocated with '") + static_cast<char>(o->how) +
      "', released with '" + static_cast<char>(how) + "' (m=malloc n=new a=new[])", nullptr);
    throw PathEnd{"violation"};
  }
  access(s, o, 0, o->size, true);
  o = own(s, o->id);
  o->freed = true;
  o->d.clear(); o->d.shrink_to_fit();
  o->st.clear(); o->st.shrink_to_fit();
  o->sym.clear(); o->sym.shrink_to_fit();
  s.liveHeap--;
}
void Engine::doCopy(State & s, uint64_t dst, uint64_t src, uint64_t n)
{
  if (n == 0) {return;}
  Obj * so = rd(s, src, n, "read");
  access(s, so, src - so->base, n, false);
  so = find(s, src);
  Obj * d = wr(s, dst, n, "write");
  access(s, d, dst - d->base, n, true);
  d = own(s, find(s, dst)->id);
  so = find(s, src);
  uint64_t soff = src - so->base, doff = dst - d->base;
  if (so->st.empty()) {
    memmove(d->d.data() + doff, so->d.data() + soff, n);
    if (!d->st.empty()) {memset(d->st.data() + doff, B_CONC, n);}
    return;
  }
  if (d->st.empty()) {d->st.assign(d->size, B_CONC); d->sym.assign(d->size, nullptr);}
  std::vector<uint8_t> td(so->d.begin() + soff, so->d.begin() + soff + n);
  std::vector<uint8_t> ts(so->st.begin() + soff, so->st.begin() + soff + n);
  std::vector<const Expr *> te(so->sym.begin() + soff, so->sym.begin() + soff + n);
  memcpy(d->d.data() + doff, td.data(), n);
  memcpy(d->st.data() + doff, ts.data(), n);
  std::copy(te.begin(), te.end(), d->sym.begin() + doff);
}
Val Engine::memcmpVal(State & s, uint64_t a, uint64_t b, uint64_t n)
{
  if (n == 0) {return vC(32, 0);}
  Obj * x = rd(s, a, n, "read"); access(s, x, a - x->base, n, false);
  Obj * y = rd(s, b, n, "read"); access(s, y, b - y->base, n, false);
  x = find(s, a); y = find(s, b);
  const Expr * ea = nullptr, * eb = nullptr;
  bool started = false;
  for (uint64_t i = 0; i < n; i++) {
    const Expr * p = byteAt(s, x, a - x->base + i);
    if (x->id == y->id) {y = x;}
    const Expr * q = byteAt(s, y, b - y->base + i);
    if (x->id == y->id) {x = y;}
    if (!started) {
      if (p == q) {continue;}
      if (p->isC() && q->isC()) {return vC(32, p->v < q->v ? static_cast<uint64_t>(-1) : 1);}
      started = true; ea = p; eb = q;
    } else {
      ea = mkConcat(ea, p); eb = mkConcat(eb, q);
    }
  }
  if (!started) {return vC(32, 0);}
  return vE(mkIte(mkEq(ea, eb), mkC(32, 0),
           mkIte(mkBin(ULT, ea, eb), mkC(32, 0xffffffff), mkC(32, 1))));
}

// ---------------------------------------------------------------- constants
uint64_t Engine::addrOf(const GlobalValue * g)
{
  auto it = gaddr.find(g);
  if (it != gaddr.end()) {return it->second;}
  if (auto * A = dyn_cast<GlobalAlias>(g)) {return cval(A->getAliasee()).c;}
  errs() << "no address for " << g->getName() << "\n";
  abort();
}
Function * Engine::fnAt(uint64_t a) {auto it = faddr.find(a); return it == faddr.end() ? nullptr : it->second;}

Val Engine::cval(const Constant * c)
{
  auto it = constCache.find(c);
  if (it != constCache.end()) {return it->second;}
  Val v;
  if (auto * CI = dyn_cast<ConstantInt>(c)) {
    v = vE(mkAP(CI->getValue()));
  } else if (isa<ConstantPointerNull>(c)) {
    v = vC(64, 0);
  } else if (auto * CF = dyn_cast<ConstantFP>(c)) {
    v = vE(mkAP(CF->getValueAPF().bitcastToAPInt()));
  } else if (auto * G = dyn_cast<GlobalValue>(c)) {
    v = vC(64, addrOf(G));
  } else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type * T = c->getType();
    if (T->isStructTy() || T->isArrayTy()) {
      auto * agg = new std::vector<Val>;
      unsigned n = T->isStructTy() ? T->getStructNumElements() :
        static_cast<unsigned>(T->getArrayNumElements());
      for (unsigned i = 0; i < n; i++) {
        Constant * el = isa<UndefValue>(c) ? cast<UndefValue>(c)->getElementValue(i) :
          cast<ConstantAggregateZero>(c)->getElementValue(i);
        agg->push_back(cval(el));
      }
      v.agg = agg;
    } else {v = vC(bits(T), 0);}
  } else if (isa<ConstantAggregate>(c)) {
    auto * agg = new std::vector<Val>;
    for (const Use & u : c->operands()) {agg->push_back(cval(cast<Constant>(u.get())));}
    v.agg = agg;
  } else if (auto * CD = dyn_cast<ConstantDataSequential>(c)) {
    auto * agg = new std::vector<Val>;
    for (unsigned i = 0; i < CD->getNumElements(); i++) {
      agg->push_back(cval(CD->getElementAsConstant(i)));
    }
    v.agg = agg;
  } else if (auto * CE = dyn_cast<ConstantExpr>(c)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(CE)->accumulateConstantOffset(DL, off)) {
            errs() << "constant gep\n"; abort();
          }
          v = vC(64, cval(CE->getOperand(0)).c + off.getZExtValue());
          break;
        }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast: {
          Val x = cval(CE->getOperand(0));
          v = vC(bits(CE->getType()), x.c);
          break;
        }
      case Instruction::Trunc: v = vC(bits(CE->getType()), cval(CE->getOperand(0)).c); break;
      case Instruction::Add:
        v = vC(bits(CE->getType()), cval(CE->getOperand(0)).c + cval(CE->getOperand(1)).c); break;
      case Instruction::Sub:
        v = vC(bits(CE->getType()), cval(CE->getOperand(0)).c - cval(CE->getOperand(1)).c); break;
      case Instruction::Xor:
        v = vC(bits(CE->getType()), cval(CE->getOperand(0)).c ^ cval(CE->getOperand(1)).c); break;
      case Instruction::ICmp:
        v = icmp(CE->getPredicate(), cval(CE->getOperand(0)), cval(CE->getOperand(1))); break;
      default: errs() << "constexpr " << *CE << "\n"; abort();
    }
  } else {errs() << "constant? " << *c << "\n"; abort();}
  constCache[c] = v;
  return v;
}

void Engine::initGlobal(State & s, uint64_t addr, const Constant * c, Obj * o)
{
  Type * T = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {return;}
  if (auto * CS = dyn_cast<ConstantStruct>(c)) {
    const StructLayout * L = DL.getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < CS->getNumOperands(); i++) {
      initGlobal(s, addr + L->getElementOffset(i), CS->getOperand(i), o);
    }
    return;
  }
  if (auto * CA = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL.getTypeAllocSize(T->getArrayElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) {
      initGlobal(s, addr + i * es, CA->getOperand(i), o);
    }
    return;
  }
  if (auto * CD = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL.getTypeAllocSize(CD->getElementType());
    for (unsigned i = 0; i < CD->getNumElements(); i++) {
      initGlobal(s, addr + i * es, CD->getElementAsConstant(i), o);
    }
    return;
  }
  writeObj(s, o, addr - o->base, cval(c), static_cast<uint32_t>(DL.getTypeStoreSize(T).getFixedValue()));
}

// ---------------------------------------------------------------- function preparation
static const Builtin * intrinsic(Engine & E, Function * F);

FnInfo * Engine::info(Function * F)
{
  auto it = fns.find(F);
  if (it != fns.end()) {return it->second.get();}
  auto p = std::make_unique<FnInfo>();
  FnInfo * fi = p.get();
  fns[F] = std::move(p);
  fi->F = F;
  if (DISubprogram * SP = F->getSubprogram()) {
    std::string f = (SP->getDirectory() + "/" + SP->getFilename()).str();
    if (!SP->getFilename().empty() && SP->getFilename()[0] == '/') {f = SP->getFilename().str();}
    for (auto & pre : repoPrefix) {if (f.rfind(pre, 0) == 0) {fi->isRepo = true;}}
  }
  std::unordered_map<const Value *, int> slot;
  for (auto & a : F->args()) {slot[&a] = static_cast<int>(fi->nregs++);}
  uint32_t bi_ = 0;
  for (auto & B : *F) {
    fi->bbIdx[&B] = bi_++;
    for (auto & I : B) {if (!I.getType()->isVoidTy()) {slot[&I] = static_cast<int>(fi->nregs++);}}
  }
  auto opnd = [&](const Value * v) {
      Opnd o;
      if (auto * c = dyn_cast<Constant>(v)) {o.v = cval(c);} else {
        auto sit = slot.find(v);
        if (sit != slot.end()) {o.slot = sit->second;}
      }
      return o;
    };
  for (auto & B : *F) {
    uint32_t bidx = fi->bbIdx[&B];
    fi->bbStart.push_back(static_cast<uint32_t>(fi->code.size()));
    for (auto & I : B) {
      if (auto * P = dyn_cast<PHINode>(&I)) {
        for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
          uint32_t from = fi->bbIdx[P->getIncomingBlock(k)];
          auto & vec = fi->edge[{from, bidx}];
          bool dup = false;
          for (auto & x : vec) {if (x.dst == slot[P]) {dup = true;}}
          if (!dup) {vec.push_back({slot[P], opnd(P->getIncomingValue(k))});}
        }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) {continue;}
      PInst pi;
      pi.I = &I; pi.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) {pi.dst = slot[&I]; pi.w = bits(I.getType());}
      if (DILocation * L = I.getDebugLoc().get()) {
        std::string f = L->getFilename().str();
        if (f.empty() || f[0] != '/') {f = L->getDirectory().str() + "/" + f;}
        for (auto & pre : repoPrefix) {if (f.rfind(pre, 0) == 0) {pi.isRepo = true;}}
      }
      switch (pi.op) {
        case Instruction::Br: {
            auto * BI = cast<BranchInst>(&I);
            if (BI->isConditional()) {pi.ops.push_back(opnd(BI->getCondition()));}
            for (unsigned k = 0; k < BI->getNumSuccessors(); k++) {
              pi.bbs.push_back(fi->bbIdx[BI->getSuccessor(k)]);
            }
            break;
          }
        case Instruction::Switch: {
            auto * SI = cast<SwitchInst>(&I);
            pi.ops.push_back(opnd(SI->getCondition()));
            pi.bbs.push_back(fi->bbIdx[SI->getDefaultDest()]);
            for (auto & cs : SI->cases()) {
              pi.ops.push_back(opnd(cs.getCaseValue()));
              pi.bbs.push_back(fi->bbIdx[cs.getCaseSuccessor()]);
            }
            break;
          }
        case Instruction::GetElementPtr: {
            auto * G = cast<GetElementPtrInst>(&I);
            pi.ops.push_back(opnd(G->getPointerOperand()));
            for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
              Value * iv = gi.getOperand();
              if (StructType * ST = gi.getStructTypeOrNull()) {
                pi.imm += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
              } else {
                uint64_t sc = DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                if (auto * CI = dyn_cast<ConstantInt>(iv)) {
                  pi.imm += static_cast<uint64_t>(CI->getSExtValue()) * sc;
                } else {
                  pi.idx.push_back({static_cast<int>(pi.ops.size()), sc});
                  pi.ops.push_back(opnd(iv));
                }
              }
            }
            break;
          }
        case Instruction::Alloca: {
            auto * A = cast<AllocaInst>(&I);
            pi.imm = DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
            pi.ops.push_back(opnd(A->getArraySize()));
            break;
          }
        case Instruction::Invoke: case Instruction::Call: {
            auto * CB = cast<CallBase>(&I);
            for (auto & a : CB->args()) {
              if (isa<MetadataAsValue>(a.get())) {pi.ops.push_back(Opnd()); continue;}
              pi.ops.push_back(opnd(a.get()));
            }
            if (pi.op == Instruction::Invoke) {
              auto * IV = cast<InvokeInst>(CB);
              pi.bbs.push_back(fi->bbIdx[IV->getNormalDest()]);
              pi.bbs.push_back(fi->bbIdx[IV->getUnwindDest()]);
            }
            Value * cv = CB->getCalledOperand()->stripPointerCasts();
            if (auto * GA = dyn_cast<GlobalAlias>(cv)) {cv = GA->getAliaseeObject();}
            if (auto * Fn = dyn_cast<Function>(cv)) {
              pi.callee = Fn;
              if (Fn->isIntrinsic()) {pi.bi = intrinsic(*this, Fn);} else {
                auto b = bi.find(Fn->getName().str());
                if (b != bi.end()) {pi.bi = &b->second;}
              }
            }
            pi.ops.push_back(opnd(cv));
            break;
          }
        default:
          for (const Use & u : I.operands()) {
            if (isa<BasicBlock>(u.get())) {continue;}
            pi.ops.push_back(opnd(u.get()));
          }
      }
      fi->code.push_back(std::move(pi));
    }
  }
  return fi;
}

// ---------------------------------------------------------------- path management
void Engine::addC(State & s, const Expr * e)
{
  if (isTrue(e)) {return;}
  if (e->k == AND && e->w == 1) {addC(s, e->a); addC(s, e->b); return;}
  if (s.csSet.insert(e).second) {s.cs.push_back(e);}
}
void Engine::engineError(State & s, const std::string & why)
{
  errors[why]++;
  if (!errDetail.count(why)) {
    std::string d;
    for (auto & x : stackOf(s)) {d += x + " <- ";}
    errDetail[why] = d;
  }
  complete = false;
  if (incompleteWhy.empty()) {incompleteWhy = why;}
  throw PathEnd{"error"};
}
bool Engine::fork(State & s, const Expr * c, bool & taken)
{
  if (c->isC()) {taken = c->v != 0; return false;}
  bool b = evalBool(c, s.model);
  const Expr * pos = b ? c : mkNot(c), * neg = b ? mkNot(c) : c;
  taken = b;
  if (s.csSet.count(pos)) {return false;}
  Model m;
  Res r = checkSat(s.cs, neg, s.model, m);
  if (r == Res::UNKNOWN) {engineError(s, "solver timeout on a branch");}
  if (r == Res::UNSAT) {return false;}
  auto n = std::make_unique<State>(s);
  n->id = ++nextState;
  n->depthForks++;
  s.depthForks++;
  addC(*n, neg);
  n->model = m;
  work.push_back(std::move(n));
  addC(s, pos);
  forks++;
  return true;
}
uint64_t Engine::concretize(State & s, const Val & v)
{
  if (conc(v)) {return v.c;}
  if (v.e->isC()) {return apOf(v.e).getZExtValue();}
  APInt a = evalExpr(v.e, s.model);
  bool taken;
  fork(s, mkEq(v.e, mkAP(a)), taken);
  return a.getZExtValue();
}
std::string Engine::loc(const Instruction * I)
{
  if (!I) {return "?";}
  if (DILocation * L = I->getDebugLoc().get()) {
    std::string f = L->getFilename().str();
    size_t p = f.rfind('/');
    return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(L->getLine());
  }
  return "?";
}
std::vector<std::string> Engine::stackOf(State & s)
{
  std::vector<std::string> r;
  if (s.cur >= s.th.size()) {return r;}
  auto & st = s.th[s.cur].st;
  for (size_t i = st.size(); i-- > 0; ) {
    Frame & f = st[i];
    const Instruction * I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
    std::string n = demangle(f.f->F->getName().str());
    if (n.size() > 160) {n = n.substr(0, 160) + "...";}
    std::string l = loc(I);
    if (I) {
      if (DILocation * L = I->getDebugLoc().get()) {
        while ((L = L->getInlinedAt())) {
          std::string fn = L->getFilename().str();
          size_t p = fn.rfind('/');
          l += " @ " + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(L->getLine());
        }
      }
    }
    r.push_back(n + " (" + l + ")");
  }
  return r;
}
Violation Engine::snapshot(State & s, const Model & m)
{
  Violation v;
  for (auto & r : s.syms) {
    v.inputs.push_back({r.name, r.chosen >= 0 ? static_cast<uint64_t>(r.chosen) : m.get(r.var)});
    v.widths.push_back(r.w);
  }
  v.sched = s.sched;
  for (auto & o : s.obs) {
    std::string t;
    if (o.str) {
      static const char * hx = "0123456789abcdef";
      for (auto & b : o.vals) {
        uint64_t x = conc(b) ? b.c : evalExpr(b.e, m).getZExtValue();
        t += hx[(x >> 4) & 15]; t += hx[x & 15];
      }
      t = "x" + t;
    } else {
      auto & b = o.vals[0];
      t = std::to_string(conc(b) ? b.c : evalExpr(b.e, m).getZExtValue());
    }
    v.obs.push_back({o.name, t});
  }
  return v;
}
// cond: the violation happens when cond holds (nullptr: on every run of this path)
void Engine::violate(State & s, const std::string & kind, const std::string & msg, const Expr * cond)
{
  Model m = s.model;
  if (cond) {
    Res r = checkSat(s.cs, cond, s.model, m, true);
    if (r != Res::SAT) {return;}
  }
  auto st = stackOf(s);
  std::string key = kind + "|" + msg.substr(0, 60);
  if (!seenViol.insert(key).second) {return;}
  Violation v = snapshot(s, m);
  v.kind = kind; v.msg = msg; v.stack = st; v.loc = st.empty() ? "?" : st[0];
  viol.push_back(v);
}
void Engine::endPath(State & s, const std::string & why)
{
  if (why == "switched") {return;}        // its continuations are in the work list
  ends[why]++;
  if (why != "complete") {return;}
  paths++;
  for (auto & c : s.covers) {covers[c]++;}
  if (checkLeaks && s.liveHeap > 0) {
    // what objects of static storage duration still point to, directly or not, is in use
    std::vector<const Obj *> todo;
    std::vector<bool> seen(s.mem.size());
    for (auto & r : s.mem) {
      if (r.p && (r.p->kind == OK::Global || r.p->kind == OK::Tls)) {seen[r.p->id] = true; todo.push_back(r.p);}
    }
    while (!todo.empty()) {
      const Obj * o = todo.back();
      todo.pop_back();
      for (uint64_t i = 0; i + 8 <= o->size; i += 8) {
        uint64_t v;
        memcpy(&v, o->d.data() + i, 8);
        if (!o->st.empty() && (o->st[i] != B_CONC || o->st[i + 7] != B_CONC)) {continue;}
        const Obj * t = find(s, v);
        if (t && t->kind == OK::Heap && !t->freed && !seen[t->id] && v - t->base <= t->size) {seen[t->id] = true; todo.push_back(t);}
      }
    }
    std::string names;
    for (auto & r : s.mem) {
      if (r.p && r.p->kind == OK::Heap && !r.p->freed && !seen[r.p->id] && r.p->name.compare(0, 7, "static ") != 0) {
        names += r.p->name + "; ";
        if (names.size() > 300) {break;}
      }
    }
    if (!names.empty()) {violate(s, "leak", "memory not released at the end: " + names, nullptr);}
  }
  // deterministic spread of samples: early paths, then replace at growing intervals
  pathsSinceSample++;
  if (samples.size() < nSamples) {samples.push_back(snapshot(s, s.model));} else if (nSamples) {
    uint64_t h = paths * 0x9E3779B97F4A7C15ull;
    if ((h >> 20) % paths < nSamples) {samples[(h >> 8) % nSamples] = snapshot(s, s.model);}
  }
}

// ---------------------------------------------------------------- threads
void Engine::pickNext(State & s)
{
  std::vector<uint32_t> R_;
  for (uint32_t i = 0; i < s.th.size(); i++) {if (s.th[i].status == TS::Run) {R_.push_back(i);}}
  if (R_.empty()) {
    std::string w;
    for (size_t i = 0; i < s.th.size(); i++) {
      if (s.th[i].status == TS::Mutex) {w += " thread " + std::to_string(i) + " waits for a lock;";}
    }
    violate(s, "deadlock", "no thread can run:" + w, nullptr);
    throw PathEnd{"violation"};
  }
  for (size_t k = 1; k < R_.size(); k++) {
    auto n = std::make_unique<State>(s);
    n->id = ++nextState;
    n->cur = R_[k];
    n->sched.push_back(static_cast<uint8_t>(R_[k]));
    work.push_back(std::move(n));
    forks++;
  }
  if (R_.size() > 1) {schedPoints++;}
  s.cur = R_[0];
  s.sched.push_back(static_cast<uint8_t>(R_[0]));
}
// Others may run here.  At atomic operations up to `atomicSwitches` times on a path; a thread that spins is
// interrupted after a while, and one that gives way (Spin) always.
bool Engine::yieldPoint(State & s, Yield kind)
{
  if (s.th.size() < 2) {return true;}
  Thread & t = s.th[s.cur];
  if (t.yielded) {t.yielded = false; return true;}
  if (kind == Yield::Lock) {t.spins = 0;} else {t.spins++;}
  const bool force = kind == Yield::Spin || t.spins > 200;
  if (kind == Yield::Atomic && !force && s.preempted >= atomicSwitches) {
    for (uint32_t i = 0; i < s.th.size(); i++) {
      if (i != s.cur && s.th[i].status == TS::Run) {s.sched.push_back(static_cast<uint8_t>(s.cur)); break;}
    }
    return true;
  }
  bool any = false;
  for (uint32_t i = 0; i < s.th.size(); i++) {
    if (i == s.cur || s.th[i].status != TS::Run) {continue;}
    any = true;
    auto n = std::make_unique<State>(s);
    n->id = ++nextState;
    n->th[n->cur].yielded = true;
    n->th[n->cur].spins = n->th[i].spins = 0;
    if (kind == Yield::Atomic && !force) {n->preempted++;}
    n->cur = i;
    n->sched.push_back(static_cast<uint8_t>(i));
    work.push_back(std::move(n));
    forks++;
  }
  if (any && force) {schedPoints++; throw PathEnd{"switched"};}
  if (any) {s.sched.push_back(static_cast<uint8_t>(s.cur)); schedPoints++;}
  return true;
}

// ---------------------------------------------------------------- control transfer
void Engine::gotoBB(State &, Frame & f, uint32_t to)
{
  auto it = f.f->edge.find({f.bb, to});
  if (it != f.f->edge.end()) {
    auto & v = it->second;
    if (v.size() == 1) {
      f.regs[v[0].dst] = get(f, v[0].src);
    } else {
      Val tmp[64];
      std::vector<Val> big;
      Val * t = tmp;
      if (v.size() > 64) {big.resize(v.size()); t = big.data();}
      for (size_t i = 0; i < v.size(); i++) {t[i] = get(f, v[i].src);}
      for (size_t i = 0; i < v.size(); i++) {f.regs[v[i].dst] = t[i];}
    }
  }
  f.bb = to;
  f.pc = f.f->bbStart[to];
}
void Engine::pushCall(State & s, Function * F, std::vector<Val> & args, bool, uint8_t onRet)
{
  FnInfo * fi = info(F);
  fi->calls++;
  Thread & t = s.th[s.cur];
  if (t.st.size() > 600) {
    violate(s, "nontermination", "call depth over 600", nullptr);
    throw PathEnd{"violation"};
  }
  t.st.emplace_back();
  Frame & f = t.st.back();
  f.f = fi;
  f.regs.resize(fi->nregs);
  size_t n = F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); i++) {f.regs[i] = args[i];}
  for (size_t i = n; i < args.size(); i++) {f.varargs.push_back(args[i]);}
  f.pc = 0; f.bb = 0;
  f.onRet = onRet;
  // byval arguments are copied into the callee's frame
  for (size_t i = 0; i < n; i++) {
    if (F->getArg(static_cast<unsigned>(i))->hasByValAttr()) {
      Type * T = F->getArg(static_cast<unsigned>(i))->getParamByValType();
      uint64_t sz = DL.getTypeAllocSize(T).getFixedValue();
      uint64_t src = concretize(s, args[i]);
      Obj * o = newObj(s, sz, OK::Stack, "byval", true);
      uint64_t dst = o->base;
      uint32_t id = o->id;
      doCopy(s, dst, src, sz);
      Frame & g = s.th[s.cur].st.back();
      g.regs[i] = vC(64, dst);
      g.allocas.push_back(id);
    }
  }
}
void Engine::finishCall(State & s, const Val & v)
{
  Frame & f = s.th[s.cur].st.back();
  PInst & I = f.f->code[f.pc];
  if (I.dst >= 0) {f.regs[I.dst] = v;}
  if (I.op == Instruction::Invoke) {gotoBB(s, f, I.bbs[0]);} else {f.pc++;}
}
void Engine::retFrom(State & s, const Val & v)
{
  Thread & t = s.th[s.cur];
  uint8_t onRet = t.st.back().onRet;
  for (uint32_t id : t.st.back().allocas) {s.mem[id] = ObjRef();}
  t.st.pop_back();
  if (t.st.empty()) {
    t.status = TS::Done;
    if (s.cur == 0) {throw PathEnd{"complete"};}
    bool all = true;
    for (size_t i = 1; i < s.th.size(); i++) {if (s.th[i].status != TS::Done) {all = false;}}
    if (all && s.th[0].status == TS::Join) {s.th[0].status = TS::Run;}
    pickNext(s);
    return;
  }
  if (onRet == 1) {return;}
  finishCall(s, v);
}
uint32_t Engine::typeIdFor(uint64_t ti)
{
  auto it = tids.find(ti);
  if (it == tids.end()) {it = tids.emplace(ti, static_cast<uint32_t>(tids.size() + 1)).first;}
  return it->second;
}
bool Engine::tiMatches(uint64_t thrown, uint64_t h)
{
  if (h == 0 || thrown == h) {return true;}
  for (auto & p : gaddr) {
    if (p.second != thrown) {continue;}
    auto * GV = dyn_cast<GlobalVariable>(p.first);
    if (!GV || !GV->hasInitializer()) {return false;}
    auto * CS = dyn_cast<ConstantStruct>(GV->getInitializer());
    if (!CS) {return false;}
    for (unsigned i = 2; i < CS->getNumOperands(); i++) {
      if (CS->getOperand(i)->getType()->isPointerTy()) {
        uint64_t b = cval(CS->getOperand(i)).c;
        if (tiMatches(b, h)) {return true;}
      }
    }
    return false;
  }
  return false;
}
void Engine::unwind(State & s)
{
  Thread & t = s.th[s.cur];
  // is there a handler at all?  (an uncaught exception terminates without unwinding)
  while (!t.st.empty()) {
    Frame & f = t.st.back();
    PInst & I = f.f->code[f.pc];
    if (I.op == Instruction::Invoke && f.onRet == 0) {
      const BasicBlock * ub = cast<InvokeInst>(I.I)->getUnwindDest();
      const LandingPadInst * lp = ub->getLandingPadInst();
      bool stop = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !stop; i++) {
        if (lp->isCatch(i)) {stop = tiMatches(t.cur.ti, cval(lp->getClause(i)).c);} else {stop = true;}
      }
      if (stop) {
        gotoBB(s, f, I.bbs[1]);
        return;
      }
    }
    if (f.onRet == 1) {break;}
    for (uint32_t id : f.allocas) {s.mem[id] = ObjRef();}
    if (t.st.size() == 1) {break;}
    t.st.pop_back();
  }
  std::string n = "?";
  for (auto & p : gaddr) {if (p.second == t.cur.ti) {n = demangle(p.first->getName().str());}}
  violate(s, "exception", "uncaught exception: " + n, nullptr);
  throw PathEnd{"violation"};
}

// ---------------------------------------------------------------- arithmetic
static Kind binKind(unsigned op)
{
  switch (op) {
    case Instruction::Add: return ADD;
    case Instruction::Sub: return SUB;
    case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV;
    case Instruction::SDiv: return SDIV;
    case Instruction::URem: return UREM;
    case Instruction::SRem: return SREM;
    case Instruction::And: return AND;
    case Instruction::Or: return OR;
    case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL;
    case Instruction::LShr: return LSHR;
    case Instruction::AShr: return ASHR;
    default: abort();
  }
}
Val Engine::binop(State & s, PInst & I, const Val & a, const Val & b)
{
  Kind k = binKind(I.op);
  if (k == UDIV || k == SDIV || k == UREM || k == SREM) {
    const Expr * z = mkEq(toE(b), mkC(b.w, 0));
    if (isTrue(z)) {
      violate(s, "arithmetic", "division by zero", nullptr);
      throw PathEnd{"violation"};
    }
    if (!z->isC()) {
      violate(s, "arithmetic", "division by zero", z);
      bool t;
      fork(s, mkNot(z), t);
      if (!t) {throw PathEnd{"violation"};}
    }
  }
  if (conc(a) && conc(b)) {
    uint64_t x = a.c, y = b.c;
    switch (k) {
      case ADD: return vC(I.w, x + y);
      case SUB: return vC(I.w, x - y);
      case MUL: return vC(I.w, x * y);
      case AND: return vC(I.w, x & y);
      case OR: return vC(I.w, x | y);
      case XOR: return vC(I.w, x ^ y);
      case UDIV: return vC(I.w, x / y);
      case UREM: return vC(I.w, x % y);
      case SHL: return vC(I.w, y >= I.w ? 0 : x << y);
      case LSHR: return vC(I.w, y >= I.w ? 0 : x >> y);
      default: return vE(mkAP(foldBin(k, APInt(I.w, x), APInt(I.w, y))));
    }
  }
  return vE(mkBin(k, toE(a), toE(b)));
}
Val Engine::icmp(unsigned pred, const Val & a, const Val & b)
{
  if (conc(a) && conc(b)) {
    uint64_t x = a.c, y = b.c;
    auto sg = [&](uint64_t v) {
        return a.w >= 64 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64 - a.w)) >> (64 - a.w);
      };
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sg(x) > sg(y); break;
      case CmpInst::ICMP_SGE: r = sg(x) >= sg(y); break;
      case CmpInst::ICMP_SLT: r = sg(x) < sg(y); break;
      case CmpInst::ICMP_SLE: r = sg(x) <= sg(y); break;
      default: abort();
    }
    return vC(1, r);
  }
  const Expr * x = toE(a), * y = toE(b);
  switch (pred) {
    case CmpInst::ICMP_EQ: return vE(mkEq(x, y));
    case CmpInst::ICMP_NE: return vE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return vE(mkBin(ULT, y, x));
    case CmpInst::ICMP_UGE: return vE(mkBin(ULE, y, x));
    case CmpInst::ICMP_ULT: return vE(mkBin(ULT, x, y));
    case CmpInst::ICMP_ULE: return vE(mkBin(ULE, x, y));
    case CmpInst::ICMP_SGT: return vE(mkBin(SLT, y, x));
    case CmpInst::ICMP_SGE: return vE(mkBin(SLE, y, x));
    case CmpInst::ICMP_SLT: return vE(mkBin(SLT, x, y));
    case CmpInst::ICMP_SLE: return vE(mkBin(SLE, x, y));
    default: abort();
  }
}
static APFloat toF(const Val & v, Type * T)
{
  return APFloat(T->getFltSemantics(), v.e ? apOf(v.e) : APInt(v.w, v.c));
}
static Val fromF(const APFloat & f) {return vE(mkAP(f.bitcastToAPInt()));}
Val Engine::fpop(State & s, PInst & I, Frame & f)
{
  std::vector<Val> a;
  for (auto & o : I.ops) {
    a.push_back(get(f, o));
    if (a.back().e && !a.back().e->isC()) {engineError(s, "symbolic floating point");}
  }
  auto rm = APFloat::rmNearestTiesToEven;
  Type * T = I.I->getType();
  Type * S = I.I->getOperand(0)->getType();
  switch (I.op) {
    case Instruction::FAdd: {APFloat x = toF(a[0], S); x.add(toF(a[1], S), rm); return fromF(x);}
    case Instruction::FSub: {APFloat x = toF(a[0], S); x.subtract(toF(a[1], S), rm); return fromF(x);}
    case Instruction::FMul: {APFloat x = toF(a[0], S); x.multiply(toF(a[1], S), rm); return fromF(x);}
    case Instruction::FDiv: {APFloat x = toF(a[0], S); x.divide(toF(a[1], S), rm); return fromF(x);}
    case Instruction::FNeg: {APFloat x = toF(a[0], S); x.changeSign(); return fromF(x);}
    case Instruction::FPExt: case Instruction::FPTrunc: {
        APFloat x = toF(a[0], S); bool li; x.convert(T->getFltSemantics(), rm, &li); return fromF(x);
      }
    case Instruction::UIToFP: case Instruction::SIToFP: {
        APFloat x(T->getFltSemantics());
        x.convertFromAPInt(a[0].e ? apOf(a[0].e) : APInt(a[0].w, a[0].c), I.op == Instruction::SIToFP, rm);
        return fromF(x);
      }
    case Instruction::FPToUI: case Instruction::FPToSI: {
        APSInt r(I.w, I.op == Instruction::FPToUI); bool ex;
        toF(a[0], S).convertToInteger(r, APFloat::rmTowardZero, &ex);
        return vE(mkAP(r));
      }
    case Instruction::FCmp: {
        auto c = toF(a[0], S).compare(toF(a[1], S));
        unsigned p = cast<FCmpInst>(I.I)->getPredicate();
        bool r = false;
        if (c == APFloat::cmpEqual) {r = p & 1;}
        if (c == APFloat::cmpGreaterThan) {r = p & 2;}
        if (c == APFloat::cmpLessThan) {r = p & 4;}
        if (c == APFloat::cmpUnordered) {r = p & 8;}
        return vC(1, r);
      }
    default: engineError(s, "floating point operation");
  }
}

// ---------------------------------------------------------------- calls
void Engine::call(State & s, PInst & I)
{
  Frame & f = s.th[s.cur].st.back();
  std::vector<Val> args;
  args.reserve(I.ops.size());
  for (size_t i = 0; i + 1 < I.ops.size(); i++) {args.push_back(get(f, I.ops[i]));}
  Function * callee = I.callee;
  const Builtin * b = I.bi;
  if (!callee) {
    if (isa<InlineAsm>(cast<CallBase>(I.I)->getCalledOperand())) {engineError(s, "inline assembly");}
    uint64_t a = concretize(s, get(f, I.ops.back()));
    callee = fnAt(a);
    if (!callee) {
      violate(s, "memory", "call through a bad function pointer " + hexs(a), nullptr);
      throw PathEnd{"violation"};
    }
    auto it = bi.find(callee->getName().str());
    if (it != bi.end()) {b = &it->second;}
  }
  if (b) {
    Val ret;
    R r = (*b)(*this, s, I, args, ret);
    if (r == R::Next) {finishCall(s, ret);}
    return;
  }
  if (callee->isDeclaration()) {
    engineError(s, "unmodelled function: " + demangle(callee->getName().str()) + " [" +
      callee->getName().str() + "]");
  }
  pushCall(s, callee, args, !I.I->getType()->isVoidTy());
}

bool Engine::step(State & s)
{
  Frame & f = s.th[s.cur].st.back();
  PInst & I = f.f->code[f.pc];
  I.seen |= 1;
  switch (I.op) {
    case Instruction::Br:
      if (I.ops.empty()) {gotoBB(s, f, I.bbs[0]); return true;} else {
        Val c = get(f, I.ops[0]);
        bool t;
        if (conc(c)) {t = c.c != 0;} else {fork(s, c.e, t);}
        I.seen |= t ? 2 : 4;
        gotoBB(s, f, I.bbs[t ? 0 : 1]);
        return true;
      }
    case Instruction::Switch: {
        Val c = get(f, I.ops[0]);
        if (conc(c)) {
          uint32_t to = I.bbs[0];
          for (size_t i = 1; i < I.ops.size(); i++) {if (I.ops[i].v.c == c.c) {to = I.bbs[i]; break;}}
          gotoBB(s, f, to);
          return true;
        }
        std::vector<uint32_t> tgts;
        for (size_t i = 1; i < I.bbs.size(); i++) {
          if (I.bbs[i] != I.bbs[0] && std::find(tgts.begin(), tgts.end(), I.bbs[i]) == tgts.end()) {
            tgts.push_back(I.bbs[i]);
          }
        }
        for (uint32_t tg : tgts) {
          const Expr * cond = mkC(1, 0);
          for (size_t i = 1; i < I.bbs.size(); i++) {
            if (I.bbs[i] == tg) {cond = mkOr(cond, mkEq(c.e, toE(I.ops[i].v)));}
          }
          bool t;
          fork(s, cond, t);
          if (t) {gotoBB(s, s.th[s.cur].st.back(), tg); return true;}
        }
        gotoBB(s, s.th[s.cur].st.back(), I.bbs[0]);
        return true;
      }
    case Instruction::Ret: {
        Val v;
        if (!I.ops.empty()) {v = get(f, I.ops[0]);}
        retFrom(s, v);
        return true;
      }
    case Instruction::Call: case Instruction::Invoke:
      call(s, I);
      return true;
    case Instruction::Unreachable:
      violate(s, "ub", "control reached an unreachable point", nullptr);
      throw PathEnd{"violation"};
    case Instruction::Alloca: {
        uint64_t n = concretize(s, get(f, I.ops[0]));
        Obj * o = newObj(s, I.imm * n, OK::Stack, "stack variable in " + loc(I.I), true);
        Frame & g = s.th[s.cur].st.back();
        g.allocas.push_back(o->id);
        g.regs[I.dst] = vC(64, o->base);
        g.pc++;
        return true;
      }
    case Instruction::Load: {
        auto * L = cast<LoadInst>(I.I);
        Val a = get(f, I.ops[0]);
        Val r;
        if (L->isAtomic()) {
          uint64_t ad = concretize(s, a);
          auto * gv = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts());
          const bool guard = gv && gv->getName().starts_with("_ZGV");
          if (!guard) {yieldPoint(s, Yield::Atomic);}
          if (s.th.size() > 1) {
            VC & v = guard ? s.mtx[ad].vc : s.atomics[ad]; VC & t = s.th[s.cur].vc;
            for (int i = 0; i < 5; i++) {t[i] = std::max(t[i], v[i]);}
          }
          size_t keep = s.th.size();
          (void)keep;
          uint32_t n = static_cast<uint32_t>(DL.getTypeStoreSize(L->getType()).getFixedValue());
          Obj * o = rd(s, ad, n, "read");
          r = readObj(s, o, ad - o->base, n, bits(L->getType()));
        } else {r = load(s, a, L->getType());}
        Frame & g = s.th[s.cur].st.back();
        g.regs[I.dst] = r;
        g.pc++;
        return true;
      }
    case Instruction::Store: {
        auto * S = cast<StoreInst>(I.I);
        Val v = get(f, I.ops[0]), a = get(f, I.ops[1]);
        if (S->isAtomic()) {
          uint64_t ad = concretize(s, a);
          yieldPoint(s, Yield::Atomic);
          if (s.th.size() > 1) {
            VC & t = s.th[s.cur].vc;
            VC & x = s.atomics[ad];
            for (int i = 0; i < 5; i++) {x[i] = std::max(t[i], x[i]);}
            t[s.cur]++;
          }
          uint32_t n = static_cast<uint32_t>(DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
          Obj * o = wr(s, ad, n, "write");
          writeObj(s, o, ad - o->base, v, n);
        } else {store(s, a, v, S->getValueOperand()->getType());}
        s.th[s.cur].st.back().pc++;
        return true;
      }
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
        uint64_t ad = concretize(s, get(f, I.ops[0]));
        yieldPoint(s, Yield::Atomic);
        if (s.th.size() > 1) {
          VC & t = s.th[s.cur].vc; VC & x = s.atomics[ad];
          for (int i = 0; i < 5; i++) {t[i] = std::max(t[i], x[i]);}
          x = t; t[s.cur]++;
        }
        Type * T = I.I->getOperand(1)->getType();
        uint32_t n = static_cast<uint32_t>(DL.getTypeStoreSize(T).getFixedValue());
        Obj * o = wr(s, ad, n, "write");
        Val old = readObj(s, o, ad - o->base, n, bits(T));
        Frame & g = s.th[s.cur].st.back();
        Val b = get(g, I.ops[1]);
        Val nv;
        if (I.op == Instruction::AtomicCmpXchg) {
          Val nw = get(g, I.ops[2]);
          Val eq = icmp(CmpInst::ICMP_EQ, old, b);
          nv = vE(mkIte(toE(eq), toE(nw), toE(old)));
          auto * agg = new std::vector<Val>{old, eq};
          Val r; r.agg = keep(agg);
          g.regs[I.dst] = r;
        } else {
          switch (cast<AtomicRMWInst>(I.I)->getOperation()) {
            case AtomicRMWInst::Xchg: nv = b; break;
            case AtomicRMWInst::Add: nv = vE(mkBin(ADD, toE(old), toE(b))); break;
            case AtomicRMWInst::Sub: nv = vE(mkBin(SUB, toE(old), toE(b))); break;
            case AtomicRMWInst::And: nv = vE(mkBin(AND, toE(old), toE(b))); break;
            case AtomicRMWInst::Or: nv = vE(mkBin(OR, toE(old), toE(b))); break;
            case AtomicRMWInst::Xor: nv = vE(mkBin(XOR, toE(old), toE(b))); break;
            default: engineError(s, "atomicrmw operation");
          }
          g.regs[I.dst] = old;
        }
        o = wr(s, ad, n, "write");
        writeObj(s, o, ad - o->base, nv, n);
        s.th[s.cur].st.back().pc++;
        return true;
      }
    case Instruction::Fence: f.pc++; return true;
    case Instruction::GetElementPtr: {
        Val b = get(f, I.ops[0]);
        bool allc = conc(b);
        uint64_t add = I.imm;
        for (auto & x : I.idx) {if (!conc(get(f, I.ops[x.first]))) {allc = false;}}
        if (allc) {
          for (auto & x : I.idx) {
            Val v = get(f, I.ops[x.first]);
            int64_t sv = v.w >= 64 ? static_cast<int64_t>(v.c) :
              static_cast<int64_t>(v.c << (64 - v.w)) >> (64 - v.w);
            add += static_cast<uint64_t>(sv) * x.second;
          }
          f.regs[I.dst] = vC(64, b.c + add);
        } else {
          const Expr * e = toE(b);
          for (auto & x : I.idx) {
            const Expr * v = toE(get(f, I.ops[x.first]));
            v = v->w < 64 ? mkSExt(v, 64) : v->w > 64 ? mkExtract(v, 0, 64) : v;
            e = mkBin(ADD, e, mkBin(MUL, v, mkC(64, x.second)));
          }
          f.regs[I.dst] = vE(mkBin(ADD, e, mkC(64, add)));
        }
        f.pc++;
        return true;
      }
    case Instruction::ICmp: {
        Val a = get(f, I.ops[0]), b = get(f, I.ops[1]);
        if (I.I->getOperand(0)->getType()->isVectorTy()) {engineError(s, "vector compare");}
        f.regs[I.dst] = icmp(cast<ICmpInst>(I.I)->getPredicate(), a, b);
        f.pc++;
        return true;
      }
    case Instruction::Select: {
        Val c = get(f, I.ops[0]);
        if (conc(c)) {f.regs[I.dst] = get(f, I.ops[c.c ? 1 : 2]);} else {
          Val a = get(f, I.ops[1]), b = get(f, I.ops[2]);
          if (a.agg || b.agg) {
            bool t;
            fork(s, c.e, t);
            s.th[s.cur].st.back().regs[I.dst] = t ? a : b;
          } else {f.regs[I.dst] = vE(mkIte(c.e, toE(a), toE(b)));}
        }
        s.th[s.cur].st.back().pc++;
        return true;
      }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        Val a = get(f, I.ops[0]);
        if (I.w == 0 || a.w == 0) {engineError(s, "vector cast");}
        if (conc(a) && I.w <= 64) {
          if (I.op == Instruction::SExt) {
            int64_t sv = a.w >= 64 ? static_cast<int64_t>(a.c) :
              static_cast<int64_t>(a.c << (64 - a.w)) >> (64 - a.w);
            f.regs[I.dst] = vC(I.w, static_cast<uint64_t>(sv));
          } else {f.regs[I.dst] = vC(I.w, a.c);}
        } else {
          const Expr * e = toE(a);
          if (I.w < e->w) {e = mkExtract(e, 0, I.w);} else if (I.w > e->w) {
            e = I.op == Instruction::SExt ? mkSExt(e, I.w) : mkZExt(e, I.w);
          }
          f.regs[I.dst] = vE(e);
        }
        f.pc++;
        return true;
      }
    case Instruction::Freeze: f.regs[I.dst] = get(f, I.ops[0]); f.pc++; return true;
    case Instruction::ExtractValue: {
        Val a = get(f, I.ops[0]);
        for (unsigned i : cast<ExtractValueInst>(I.I)->indices()) {a = (*a.agg)[i];}
        f.regs[I.dst] = a;
        f.pc++;
        return true;
      }
    case Instruction::InsertValue: {
        Val a = get(f, I.ops[0]), v = get(f, I.ops[1]);
        auto ix = cast<InsertValueInst>(I.I)->getIndices();
        std::function<Val(const Val &, unsigned)> ins = [&](const Val & x, unsigned d) -> Val {
            if (d == ix.size()) {return v;}
            auto * n = new std::vector<Val>(*x.agg);
            (*n)[ix[d]] = ins((*x.agg)[ix[d]], d + 1);
            Val r; r.agg = keep(n);
            return r;
          };
        f.regs[I.dst] = ins(a, 0);
        f.pc++;
        return true;
      }
    case Instruction::LandingPad: {
        auto * lp = cast<LandingPadInst>(I.I);
        Thread & t = s.th[s.cur];
        uint32_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (!lp->isCatch(i)) {continue;}
          uint64_t h = cval(lp->getClause(i)).c;
          if (tiMatches(t.cur.ti, h)) {sel = h == 0 ? 0x7fffffff : typeIdFor(h); break;}
        }
        auto * agg = new std::vector<Val>{vC(64, t.cur.obj), vC(32, sel)};
        Val r; r.agg = keep(agg);
        f.regs[I.dst] = r;
        f.pc++;
        return true;
      }
    case Instruction::Resume: {
        for (uint32_t id : f.allocas) {s.mem[id] = ObjRef();}
        Thread & t = s.th[s.cur];
        if (t.st.size() == 1 || t.st.back().onRet == 1) {
          violate(s, "exception", "uncaught exception", nullptr);
          throw PathEnd{"violation"};
        }
        t.st.pop_back();
        unwind(s);
        return true;
      }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
    case Instruction::FNeg: case Instruction::FPExt: case Instruction::FPTrunc:
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI:
    case Instruction::FPToSI: case Instruction::FCmp:
      f.regs[I.dst] = fpop(s, I, f);
      f.pc++;
      return true;
    default:
      if (I.I->isBinaryOp()) {
        Val a = get(f, I.ops[0]), b = get(f, I.ops[1]);
        if (I.w == 0) {engineError(s, "vector arithmetic");}
        Val r = binop(s, I, a, b);
        Frame & g = s.th[s.cur].st.back();
        g.regs[I.dst] = r;
        g.pc++;
        return true;
      }
      engineError(s, std::string("instruction ") + I.I->getOpcodeName());
  }
}

static uint64_t rssMB()
{
  std::ifstream f("/proc/self/statm");
  uint64_t a, b = 0;
  f >> a >> b;
  return b * 4096 / 1048576;
}

void Engine::exec(State & s)
{
  try {
    uint64_t n = 0;
    for (;; ) {
      step(s);
      n++; steps++; s.steps++;
      if (s.steps > maxSteps) {
        violate(s, "nontermination", "path longer than " + std::to_string(maxSteps) + " steps", nullptr);
        complete = false;
        if (incompleteWhy.empty()) {incompleteWhy = "step limit";}
        throw PathEnd{"steps"};
      }
      if ((n & 0xffff) == 0 &&
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxTime)
      {
        throw PathEnd{"time"};
      }
    }
  } catch (PathEnd & e) {
    endPath(s, e.why);
  }
}

void Engine::run(const std::string & entry)
{
  t0 = std::chrono::steady_clock::now();
  auto s0 = std::make_unique<State>();
  State & s = *s0;
  s.th.emplace_back();
  s.th[0].vc[0] = 1;
  for (auto & F : M) {
    Obj * o = newObj(s, 1, OK::Func, F.getName().str(), false);
    gaddr[&F] = o->base; faddr[o->base] = &F;
  }
  for (auto & G : M.globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 16;
    if (!G.hasInitializer()) {sz = std::max<uint64_t>(sz, 64);}
    Obj * o = newObj(s, sz, G.isConstant() ? OK::Const : G.isThreadLocal() ? OK::Tls : OK::Global,
        "global " + demangle(G.getName().str()), false);
    gaddr[&G] = o->base;
    if (G.isThreadLocal() && G.hasInitializer()) {tlsOf[o->base] = &G;}
  }
  for (auto & G : M.globals()) {
    if (G.hasInitializer()) {
      Obj * o = find(s, gaddr[&G]);
      initGlobal(s, o->base, G.getInitializer(), o);
    }
  }
  // static constructors, then the entry
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (GlobalVariable * g = M.getNamedGlobal("llvm.global_ctors")) {
    if (auto * a = dyn_cast<ConstantArray>(g->getInitializer())) {
      for (const Use & u : a->operands()) {
        auto * st = cast<ConstantStruct>(u.get());
        ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),
            dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())});
      }
    }
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto & a, auto & b) {return a.first < b.first;});
  Function * E = M.getFunction(entry);
  if (!E || E->isDeclaration()) {fprintf(stderr, "no entry %s\n", entry.c_str()); exit(4);}
  // run constructors one by one in a single-path pre-phase
  for (auto & c : ctors) {
    if (!c.second) {continue;}
    std::vector<Val> no;
    pushCall(s, c.second, no, false);
    try {
      for (;; ) {step(s); steps++;}
    } catch (PathEnd & e) {
      if (e.why != "complete") {
        incompleteWhy = "static constructor: " + e.why + " " +
          (errDetail.empty() ? std::string() : errDetail.begin()->first + " " + errDetail.begin()->second);
        complete = false;
        for (auto & v : viol) {incompleteWhy += " " + v.msg + " in " + v.loc;}
        return;
      }
    }
    s.th[0].status = TS::Run;
    if (!work.empty()) {complete = false; incompleteWhy = "static constructor forked"; return;}
  }
  s.steps = 0;
  s.liveHeap = 0;
  for (auto & r : s.mem) {
    if (r.p && r.p->kind == OK::Heap && !r.p->freed) {r.p->name = "static " + r.p->name;}
  }
  std::vector<Val> no;
  pushCall(s, E, no, false);
  work.push_back(std::move(s0));
  uint64_t stat = 0;
  while (!work.empty()) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > maxTime) {complete = false; incompleteWhy = "time budget"; break;}
    if (paths >= maxPaths) {complete = false; incompleteWhy = "path budget"; break;}
    if (viol.size() >= maxViol) {incompleteWhy = "stopped at violation"; break;}
    if ((nextState & 255) == 0 && rssMB() > memLimitMB) {complete = false; incompleteWhy = "memory budget"; break;}
    if (getenv("VP_STAT") && (++stat & 1023) == 0) {fprintf(stderr, "work %zu states %u paths %llu rss %llu mem %zu\n", work.size(), nextState, (unsigned long long)paths, (unsigned long long)rssMB(), work.back()->mem.size());}
    auto st = std::move(work.back());
    work.pop_back();
    exec(*st);
  }
  if (ends.count("time")) {complete = false; incompleteWhy = "time budget";}
}

// ---------------------------------------------------------------- output
static std::string js(const std::string & x)
{
  std::string r = "\"";
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') {r += '\\'; r += static_cast<char>(c);} else if (c < 32 || c > 126) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
    } else {r += static_cast<char>(c);}
  }
  return r + "\"";
}
static void wrV(std::ostream & o, const Violation & v)
{
  o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"stack\":[";
  for (size_t i = 0; i < v.stack.size(); i++) {o << (i ? "," : "") << js(v.stack[i]);}
  o << "],\"inputs\":[";
  for (size_t i = 0; i < v.inputs.size(); i++) {
    o << (i ? "," : "") << "[" << js(v.inputs[i].first) << "," << v.inputs[i].second << "," << v.widths[i] << "]";
  }
  o << "],\"sched\":[";
  for (size_t i = 0; i < v.sched.size(); i++) {o << (i ? "," : "") << static_cast<int>(v.sched[i]);}
  o << "],\"obs\":[";
  for (size_t i = 0; i < v.obs.size(); i++) {
    o << (i ? "," : "") << "[" << js(v.obs[i].first) << "," << js(v.obs[i].second) << "]";
  }
  o << "]}";
}
void Engine::writeJson(const std::string & path, double wall)
{
  std::ofstream o(path);
  o << "{\"complete\":" << (complete && incompleteWhy.empty() ? "true" : "false") << ",\"why\":" << js(incompleteWhy)
    << ",\"paths\":" << paths << ",\"steps\":" << steps << ",\"forks\":" << forks << ",\"states\":" <<
    nextState + 1 << ",\"sched_points\":" << schedPoints << ",\"checks\":" << checks << ",\"checks_symbolic\":" <<
    checksSym << ",\"assumes\":" << assumes << ",\"wall\":" << wall << ",\"rss_mb\":" << rssMB()
    << ",\"vars\":" << g_vars.size() << ",\"exprs\":" << g_nexpr
    << ",\"solver\":{\"asked\":" << g_ss.asked << ",\"bymodel\":" << g_ss.bymodel << ",\"bycache\":" << g_ss.bycache
    << ",\"smt\":" << g_ss.smt << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" <<
    g_ss.unknown << ",\"seconds\":" << g_ss.seconds << ",\"max\":" << g_ss.maxs << "},\"ends\":{";
  bool first = true;
  for (auto & p : ends) {o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false;}
  o << "},\"covers\":{";
  first = true;
  for (auto & p : covers) {o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false;}
  o << "},\"errors\":{";
  first = true;
  for (auto & p : errors) {
    o << (first ? "" : ",") << js(p.first) << ":" << js(std::to_string(p.second) + "x " + errDetail[p.first]);
    first = false;
  }
  o << "},\"functions\":[";
  first = true;
  std::set<std::string> lines, all;
  uint64_t sides = 0, sidesAll = 0;
  std::set<std::string> fnames;
  for (auto & p : fns) {
    for (auto & I : p.second->code) {
      if (!I.isRepo) {continue;}
      std::string l = loc(I.I);
      all.insert(l);
      if (I.seen) {
        lines.insert(l);
        // attribute inlined code to the function it came from
        if (DILocation * L = I.I->getDebugLoc().get()) {
          if (DISubprogram * SP = L->getScope()->getSubprogram()) {
            std::string ln = SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str();
            fnames.insert(demangle(ln));
          }
        }
      }
      if (I.op == Instruction::Br && I.ops.size() == 1) {
        sidesAll += 2;
        sides += ((I.seen & 2) != 0) + ((I.seen & 4) != 0);
      }
    }
  }
  for (auto & n : fnames) {o << (first ? "" : ",") << js(n.substr(0, 200)); first = false;}
  o << "],\"repo_lines\":" << lines.size() << ",\"repo_lines_seen\":[";
  first = true;
  for (auto & l : lines) {o << (first ? "" : ",") << js(l); first = false;}
  o << "],\"repo_lines_missed\":[";
  first = true;
  for (auto & l : all) {if (!lines.count(l)) {o << (first ? "" : ",") << js(l); first = false;}}
  o << "],\"branch_sides\":" << sides << ",\"branch_sides_total\":" << sidesAll << ",\"violations\":[";
  for (size_t i = 0; i < viol.size(); i++) {o << (i ? "," : ""); wrV(o, viol[i]);}
  o << "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) {o << (i ? "," : ""); wrV(o, samples[i]);}
  o << "]}\n";
}

// ---------------------------------------------------------------- builtins
static const Builtin * keep(Builtin b) {return new Builtin(std::move(b));}
#define BARGS Engine & E, State & s, PInst & I, std::vector<Val> & a, Val & ret
#define UNUSED (void)E; (void)s; (void)I; (void)a; (void)ret

static const Builtin * intrinsic(Engine &, Function * F)
{
  auto nop = [](BARGS) {UNUSED; return R::Next;};
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
      return keep([](BARGS) {
                 UNUSED;
                 uint64_t n = E.concretize(s, a[2]);
                 if (n) {
                   uint64_t d = E.concretize(s, a[0]), r = E.concretize(s, a[1]);
                   E.doCopy(s, d, r, n);
                 }
                 return R::Next;
               });
    case Intrinsic::memset: case Intrinsic::memset_inline:
      return keep([](BARGS) {
                 UNUSED;
                 uint64_t n = E.concretize(s, a[2]);
                 if (n) {
                   uint64_t d = E.concretize(s, a[0]);
                   Obj * o = E.wr(s, d, n, "write");
                   E.access(s, o, d - o->base, n, true);
                   o = E.own(s, o->id);
                   for (uint64_t i = 0; i < n; i++) {E.writeObj(s, o, d - o->base + i, a[1], 1);}
                 }
                 return R::Next;
               });
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
    case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::sideeffect:
      return keep(nop);
    case Intrinsic::stacksave:
      return keep([](BARGS) {UNUSED; ret = vC(64, 0); return R::Next;});
    case Intrinsic::expect: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability:
      return keep([](BARGS) {UNUSED; ret = a[0]; return R::Next;});
    case Intrinsic::threadlocal_address:
      // the first thread uses the original, the others a copy each, made when first used
      return keep([](BARGS) {
                 UNUSED;
                 ret = a[0];
                 if (s.cur == 0) {return R::Next;}
                 const uint64_t p = E.concretize(s, a[0]);
                 for (auto & t : s.tls) {
                   if (t.of == p && t.thread == s.cur) {ret = vC(64, t.copy); return R::Next;}
                 }
                 Obj * g = E.find(s, p);
                 auto it = E.tlsOf.find(p);
                 if (!g || it == E.tlsOf.end()) {E.engineError(s, "unmodelled: access to a thread-local object"); return R::Ended;}
                 Obj * o = E.newObj(s, g->size, OK::Tls, g->name, false);
                 E.initGlobal(s, o->base, it->second->getInitializer(), o);
                 s.tls.push_back({p, s.cur, o->base});
                 ret = vC(64, o->base);
                 return R::Next;
               });
    case Intrinsic::is_constant: return keep([](BARGS) {UNUSED; ret = vC(1, 0); return R::Next;});
    case Intrinsic::objectsize:
      return keep([](BARGS) {UNUSED; ret = vC(I.w, a[1].c ? 0 : ~0ull); return R::Next;});
    case Intrinsic::trap: case Intrinsic::debugtrap:
      return keep([](BARGS) {
                 UNUSED; E.violate(s, "ub", "trap (undefined behaviour)", nullptr); throw PathEnd{"violation"};
                 return R::Ended;
               });
    case Intrinsic::ubsantrap:
      return keep([](BARGS) {
                 UNUSED;
                 E.violate(s, "ub", "undefined behaviour trap, kind " + std::to_string(a[0].c), nullptr);
                 throw PathEnd{"violation"};
                 return R::Ended;
               });
    case Intrinsic::umax: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 ret = vE(mkIte(mkBin(ULT, x, y), y, x)); return R::Next;});
    case Intrinsic::umin: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 ret = vE(mkIte(mkBin(ULT, x, y), x, y)); return R::Next;});
    case Intrinsic::smax: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 ret = vE(mkIte(mkBin(SLT, x, y), y, x)); return R::Next;});
    case Intrinsic::smin: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 ret = vE(mkIte(mkBin(SLT, x, y), x, y)); return R::Next;});
    case Intrinsic::abs: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]);
                 ret = vE(mkIte(mkBin(SLT, x, mkC(x->w, 0)), mkBin(SUB, mkC(x->w, 0), x), x)); return R::Next;});
    case Intrinsic::bswap: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]);
                 const Expr * r = mkExtract(x, 0, 8);
                 for (uint32_t i = 8; i < x->w; i += 8) {r = mkConcat(r, mkExtract(x, i, 8));}
                 ret = vE(r); return R::Next;});
    case Intrinsic::usub_sat: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 ret = vE(mkIte(mkBin(ULT, x, y), mkC(x->w, 0), mkBin(SUB, x, y))); return R::Next;});
    case Intrinsic::uadd_sat: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                 const Expr * r = mkBin(ADD, x, y);
                 ret = vE(mkIte(mkBin(ULT, r, x), mkC(x->w, ~0ull), r)); return R::Next;});
    case Intrinsic::ctpop: return keep([](BARGS) {UNUSED; const Expr * x = toE(a[0]);
                 const Expr * r = mkC(x->w, 0);
                 for (uint32_t i = 0; i < x->w; i++) {r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), x->w));}
                 ret = vE(r); return R::Next;});
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        bool lead = F->getIntrinsicID() == Intrinsic::ctlz;
        return keep([lead](BARGS) {
                   UNUSED; const Expr * x = toE(a[0]);
                   const Expr * r = mkC(x->w, x->w);
                   for (uint32_t k = 0; k < x->w; k++) {
                     uint32_t bit = lead ? k : x->w - 1 - k;
                     // last assignment wins: highest bit for ctlz, lowest for cttz
                     r = mkIte(mkExtract(x, bit, 1), mkC(x->w, lead ? x->w - 1 - bit : bit), r);
                   }
                   ret = vE(r); return R::Next;
                 });
      }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool left = F->getIntrinsicID() == Intrinsic::fshl;
        return keep([left](BARGS) {
                   UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                   uint32_t w = x->w;
                   uint64_t n = E.concretize(s, a[2]) % w;
                   const Expr * c = mkConcat(x, y);
                   if (left) {ret = vE(mkExtract(c, static_cast<uint32_t>(w - n), w));} else {
                     ret = vE(mkExtract(c, static_cast<uint32_t>(n), w));
                   }
                   return R::Next;
                 });
      }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = F->getIntrinsicID();
        return keep([id](BARGS) {
                   UNUSED; const Expr * x = toE(a[0]), * y = toE(a[1]);
                   uint32_t w = x->w;
                   bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                   id == Intrinsic::smul_with_overflow;
                   Kind k = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD :
                   id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? MUL : SUB;
                   uint32_t W = k == MUL ? 2 * w : w + 1;
                   const Expr * r = mkBin(k, x, y);
                   const Expr * ov;
                   if (k == ADD && !sg) {ov = mkBin(ULT, r, x);} else if (k == SUB && !sg) {
                     ov = mkBin(ULT, x, y);
                   } else {
                     const Expr * X = sg ? mkSExt(x, W) : mkZExt(x, W), * Y = sg ? mkSExt(y, W) : mkZExt(y, W);
                     ov = mkNot(mkEq(mkBin(k, X, Y), sg ? mkSExt(r, W) : mkZExt(r, W)));
                   }
                   ret.agg = keep(new std::vector<Val>{vE(r), vE(ov)});
                   return R::Next;
                 });
      }
    case Intrinsic::eh_typeid_for:
      return keep([](BARGS) {UNUSED; ret = vC(32, a[0].c == 0 ? 0x7fffffff : E.typeIdFor(a[0].c)); return R::Next;});
    case Intrinsic::vastart:
      return keep([](BARGS) {
                 UNUSED;
                 uint64_t ap = E.concretize(s, a[0]);
                 std::vector<Val> va = s.th[s.cur].st.back().varargs;
                 Obj * o = E.newObj(s, 8 * va.size() + 8, OK::Stack, "varargs", true);
                 uint64_t base = o->base; uint32_t id = o->id;
                 s.th[s.cur].st.back().allocas.push_back(id);
                 for (size_t i = 0; i < va.size(); i++) {
                   Val v = va[i];
                   if (v.w < 64) {v = vE(mkZExt(toE(v), 64));}
                   E.writeObj(s, E.own(s, id), 8 * i, v, 8);
                 }
                 LLVMContext & C = E.M.getContext();
                 E.storeAt(s, ap, vC(32, 48), Type::getInt32Ty(C));
                 E.storeAt(s, ap + 4, vC(32, 176), Type::getInt32Ty(C));
                 E.storeAt(s, ap + 8, vC(64, base), Type::getInt64Ty(C));
                 E.storeAt(s, ap + 16, vC(64, base), Type::getInt64Ty(C));
                 return R::Next;
               });
    case Intrinsic::vacopy:
      return keep([](BARGS) {
                 UNUSED; E.doCopy(s, E.concretize(s, a[0]), E.concretize(s, a[1]), 24); return R::Next;
               });
    case Intrinsic::ceil: case Intrinsic::floor: {
        bool up = F->getIntrinsicID() == Intrinsic::ceil;
        Type * T = F->getReturnType();
        return keep([up, T](BARGS) {
                   UNUSED; APFloat x = toF(a[0], T);
                   x.roundToIntegral(up ? APFloat::rmTowardPositive : APFloat::rmTowardNegative);
                   ret = fromF(x); return R::Next;
                 });
      }
    default: {
        std::string n = F->getName().str();
        return keep([n](BARGS) {UNUSED; E.engineError(s, "intrinsic " + n); return R::Ended;});
      }
  }
}

void Engine::regBuiltins()
{
  auto def = [&](const char * n, Builtin b) {bi[n] = std::move(b);};
  auto fail = [](const char * kind, std::string msg) {
      return [kind, msg](BARGS) -> R {
               UNUSED; E.violate(s, kind, msg, nullptr); throw PathEnd{"violation"};
             };
    };
  // ---- heap
  auto alloc = [](uint8_t how, int szArg, int nArg) {
      return [how, szArg, nArg](BARGS) -> R {
               UNUSED;
               uint64_t n = E.concretize(s, a[szArg]);
               if (nArg >= 0) {
                 uint64_t k = E.concretize(s, a[nArg]);
                 if (k && n > ~0ull / k) {ret = vC(64, 0); return R::Next;}
                 n *= k;
               }
               const bool none = how != 'm' && s.newLeft && --s.newLeft == 0;
               if (n > (8u << 20) || none) {
                 if (how == 'm') {ret = vC(64, 0); return R::Next;}
                 Function * F = E.M.getFunction("vp_rt_throw_bad_alloc");
                 if (!F) {E.engineError(s, "huge allocation");}
                 std::vector<Val> no;
                 E.pushCall(s, F, no, false);
                 return R::Pushed;
               }
               std::string where = "heap block from";
               int shown = 0;
               auto & st = s.th[s.cur].st;
               for (size_t i = st.size(); i-- > 0 && shown < 2; ) {
                 if (st[i].f->isRepo || i + 1 == st.size()) {
                   where += " " + E.loc(st[i].f->code[st[i].pc].I); shown++;
                 }
               }
               Obj * o = E.newObj(s, n, OK::Heap, where, nArg < 0);
               o->how = how;
               s.liveHeap++;
               ret = vC(64, o->base);
               return R::Next;
             };
    };
  def("malloc", alloc('m', 0, -1));
  def("calloc", alloc('m', 0, 1));
  for (const char * n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) {def(n, alloc('n', 0, -1));}
  for (const char * n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) {def(n, alloc('a', 0, -1));}
  auto fr = [](uint8_t how) {
      return [how](BARGS) -> R {UNUSED; E.doFree(s, E.concretize(s, a[0]), how); return R::Next;};
    };
  def("free", fr('m'));
  for (const char * n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) {def(n, fr('n'));}
  for (const char * n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) {def(n, fr('a'));}
  def("realloc", [](BARGS) -> R {
      UNUSED;
      uint64_t p = E.concretize(s, a[0]), n = E.concretize(s, a[1]);
      Obj * o = E.newObj(s, n, OK::Heap, "heap block from realloc", true);
      o->how = 'm'; s.liveHeap++;
      uint64_t nb = o->base;
      if (p) {
        Obj * old = E.rd(s, p, 0, "realloc");
        E.doCopy(s, nb, p, std::min<uint64_t>(n, old->size));
        E.doFree(s, p, 'm');
      }
      ret = vC(64, nb);
      return R::Next;
    });
  // ---- memory functions
  auto mc = [](BARGS) -> R {
      UNUSED;
      uint64_t n = E.concretize(s, a[2]);
      if (n == 0) {ret = vC(32, 0); return R::Next;}
      uint64_t x = E.concretize(s, a[0]), y = E.concretize(s, a[1]);
      ret = E.memcmpVal(s, x, y, n);
      return R::Next;
    };
  def("memcmp", mc); def("bcmp", mc);
  def("memchr", [](BARGS) -> R {
      UNUSED;
      uint64_t n = E.concretize(s, a[2]), p = E.concretize(s, a[0]);
      const Expr * c = mkExtract(toE(a[1]), 0, 8);
      if (c->isC()) {
        ret = vC(64, 0);
        for (uint64_t i = 0; i < n; i++) {
          Obj * o = E.rd(s, p + i, 1, "read"); E.access(s, o, p + i - o->base, 1, false);
          o = E.find(s, p + i);
          const Expr * q = mkEq(E.byteAt(s, o, p + i - o->base), c);
          bool hit = q->isC() && q->v;
          if (!q->isC()) {E.fork(s, q, hit);}
          if (hit) {ret = vC(64, p + i); break;}
        }
        return R::Next;
      }
      // an arbitrary character: the result stays symbolic
      const Expr * r = mkC(64, 0);
      if (n) {
        Obj * o = E.rd(s, p, n, "read"); E.access(s, o, p - o->base, n, false);
        o = E.find(s, p);
        for (uint64_t i = n; i-- > 0; ) {r = mkIte(mkEq(E.byteAt(s, o, p - o->base + i), c), mkC(64, p + i), r);}
      }
      ret = vE(r);
      return R::Next;
    });
  auto mcpy = [](BARGS) -> R {
      UNUSED;
      uint64_t n = E.concretize(s, a[2]);
      if (n) {E.doCopy(s, E.concretize(s, a[0]), E.concretize(s, a[1]), n);}
      ret = a[0];
      return R::Next;
    };
  def("memcpy", mcpy); def("memmove", mcpy); def("__memcpy_chk", mcpy); def("__memmove_chk", mcpy);
  def("memset", [](BARGS) -> R {
      UNUSED;
      uint64_t n = E.concretize(s, a[2]);
      if (n) {
        uint64_t d = E.concretize(s, a[0]);
        Obj * o = E.wr(s, d, n, "write");
        E.access(s, o, d - o->base, n, true);
        o = E.own(s, o->id);
        Val b = vE(mkExtract(toE(a[1]), 0, 8));
        for (uint64_t i = 0; i < n; i++) {E.writeObj(s, o, d - o->base + i, b, 1);}
      }
      ret = a[0];
      return R::Next;
    });
  // ---- process
  def("abort", fail("abort", "abort() called"));
  def("exit", fail("abort", "exit() called"));
  def("_exit", fail("abort", "_exit() called"));
  def("_ZSt9terminatev", fail("abort", "std::terminate called (exception escaped a noexcept function)"));
  def("__cxa_pure_virtual", fail("abort", "pure virtual call"));
  def("__stack_chk_fail", fail("memory", "stack smashing"));
  def("__assert_fail", [](BARGS) -> R {
      UNUSED;
      std::string m = E.readStr(s, E.concretize(s, a[0]));
      std::string f = E.readStr(s, E.concretize(s, a[1]));
      size_t p = f.rfind('/');
      E.violate(s, "assert", "assertion failed: " + m + " (" + (p == std::string::npos ? f : f.substr(p + 1)) + ":" +
        std::to_string(a[2].c) + ")", nullptr);
      throw PathEnd{"violation"};
    });
  def("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](BARGS) -> R {
      UNUSED;
      std::string m = E.readStr(s, E.concretize(s, a[3]));
      E.violate(s, "assert", "libstdc++ assertion failed: " + m, nullptr);
      throw PathEnd{"violation"};
    });
  def("__cxa_atexit", [](BARGS) -> R {UNUSED; ret = vC(32, 0); return R::Next;});
  def("atexit", [](BARGS) -> R {UNUSED; ret = vC(32, 0); return R::Next;});
  def("__cxa_thread_atexit", [](BARGS) -> R {UNUSED; ret = vC(32, 0); return R::Next;});
  // The guard of a function-local static (or a once flag): done, or being initialised by one thread at a time.
  def("__cxa_guard_acquire", [](BARGS) -> R {
      UNUSED;
      uint64_t p = E.concretize(s, a[0]);
      Obj * o = E.rd(s, p, 1, "read");
      Val v = E.readObj(s, o, p - o->base, 1, 8);
      MState & ms = s.mtx[p];
      const int me = static_cast<int>(s.cur);
      if (v.c == 0 && ms.owner == me) {
        E.violate(s, "deadlock", "recursive initialisation of a static variable", nullptr);
        throw PathEnd{"violation"};
      }
      if (v.c == 0 && ms.owner >= 0) {
        s.th[s.cur].status = TS::Mutex; s.th[s.cur].wait = p;
        E.pickNext(s);
        return R::Redo;
      }
      for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
      if (v.c == 0) {ms.owner = me;}
      ret = vC(32, v.c == 0);
      return R::Next;
    });
  for (bool done : {true, false}) {
    def(done ? "__cxa_guard_release" : "__cxa_guard_abort", [done](BARGS) -> R {
        UNUSED;
        uint64_t p = E.concretize(s, a[0]);
        if (done) {
          Obj * o = E.wr(s, p, 1, "write");
          E.writeObj(s, o, p - o->base, vC(8, 1), 1);
        }
        MState & ms = s.mtx[p];
        ms.owner = -1;
        ms.vc = s.th[s.cur].vc;
        s.th[s.cur].vc[s.cur]++;
        for (auto & t : s.th) {if (t.status == TS::Mutex && t.wait == p) {t.status = TS::Run;}}
        return R::Next;
      });
  }
  // ---- exceptions
  def("__cxa_allocate_exception", [](BARGS) -> R {
      UNUSED;
      Obj * o = E.newObj(s, E.concretize(s, a[0]), OK::Exc, "exception object", true);
      ret = vC(64, o->base);
      return R::Next;
    });
  def("__cxa_free_exception", [](BARGS) -> R {UNUSED; return R::Next;});
  def("__cxa_throw", [](BARGS) -> R {
      UNUSED;
      s.th[s.cur].cur = Exc{E.concretize(s, a[0]), E.concretize(s, a[1]), E.concretize(s, a[2])};
      E.unwind(s);
      return R::Pushed;
    });
  def("__cxa_begin_catch", [](BARGS) -> R {
      UNUSED;
      s.th[s.cur].caught.push_back(s.th[s.cur].cur);
      ret = a[0];
      return R::Next;
    });
  def("__cxa_get_exception_ptr", [](BARGS) -> R {UNUSED; ret = a[0]; return R::Next;});
  def("__cxa_rethrow", [](BARGS) -> R {
      UNUSED;
      if (s.th[s.cur].caught.empty()) {
        E.violate(s, "abort", "rethrow without an exception", nullptr); throw PathEnd{"violation"};
      }
      s.th[s.cur].cur = s.th[s.cur].caught.back();
      s.th[s.cur].caught.back().dtor = 0;  // still in flight
      E.unwind(s);
      return R::Pushed;
    });
  def("__cxa_end_catch", [](BARGS) -> R {
      UNUSED;
      Exc x = s.th[s.cur].caught.back();
      s.th[s.cur].caught.pop_back();
      Frame & f = s.th[s.cur].st.back();
      if (I.op == Instruction::Invoke) {E.gotoBB(s, f, I.bbs[0]);} else {f.pc++;}
      if (x.dtor) {
        Function * D = E.fnAt(x.dtor);
        if (D && !D->isDeclaration()) {
          std::vector<Val> ar{vC(64, x.obj)};
          E.pushCall(s, D, ar, false, 1);
        }
      }
      return R::Pushed;
    });
  // ---- threads
  def("pthread_mutex_lock", [](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      Obj * o = E.rd(s, m, 40, "lock");
      E.yieldPoint(s);
      MState & ms = s.mtx[m];
      int me = static_cast<int>(s.cur);
      if (ms.owner == me) {
        Val kind = E.readObj(s, o, m - o->base + 16, 4, 32);
        if (conc(kind) && kind.c == 1) {ms.count++; ret = vC(32, 0); return R::Next;}
        E.violate(s, "deadlock", "a thread locks a mutex it already holds", nullptr);
        throw PathEnd{"violation"};
      }
      if (ms.owner >= 0) {
        s.th[s.cur].status = TS::Mutex; s.th[s.cur].wait = m; s.th[s.cur].yielded = true;
        E.pickNext(s);
        return R::Redo;
      }
      ms.owner = me; ms.count = 1;
      for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
      ret = vC(32, 0);
      return R::Next;
    });
  def("pthread_mutex_trylock", [](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      E.yieldPoint(s, Yield::Try);
      MState & ms = s.mtx[m];
      if (ms.owner >= 0) {ret = vC(32, 16); return R::Next;}
      ms.owner = static_cast<int>(s.cur); ms.count = 1;
      for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
      ret = vC(32, 0);
      return R::Next;
    });
  auto wake = [](State & s, uint64_t m) {
      for (auto & t : s.th) {if (t.status == TS::Mutex && t.wait == m) {t.status = TS::Run;}}
    };
  def("pthread_mutex_unlock", [wake](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      MState & ms = s.mtx[m];
      if (ms.owner != static_cast<int>(s.cur)) {
        E.violate(s, "deadlock", "unlock of a mutex the thread does not hold", nullptr);
        throw PathEnd{"violation"};
      }
      if (--ms.count == 0) {
        ms.owner = -1;
        ms.vc = s.th[s.cur].vc;
        s.th[s.cur].vc[s.cur]++;
        wake(s, m);
      }
      ret = vC(32, 0);
      return R::Next;
    });
  def("pthread_rwlock_wrlock", [](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      E.yieldPoint(s);
      MState & ms = s.mtx[m];
      int me = static_cast<int>(s.cur);
      if (ms.owner == me || std::find(ms.readers.begin(), ms.readers.end(), me) != ms.readers.end()) {
        E.violate(s, "deadlock", "a thread write-locks an rwlock it already holds", nullptr);
        throw PathEnd{"violation"};
      }
      if (ms.owner >= 0 || !ms.readers.empty()) {
        s.th[s.cur].status = TS::Mutex; s.th[s.cur].wait = m; s.th[s.cur].yielded = true;
        E.pickNext(s);
        return R::Redo;
      }
      ms.owner = me; ms.count = 1;
      for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
      ret = vC(32, 0);
      return R::Next;
    });
  def("pthread_rwlock_rdlock", [](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      E.yieldPoint(s);
      MState & ms = s.mtx[m];
      int me = static_cast<int>(s.cur);
      if (ms.owner == me) {
        E.violate(s, "deadlock", "a thread read-locks an rwlock it holds exclusively", nullptr);
        throw PathEnd{"violation"};
      }
      if (ms.owner >= 0) {
        s.th[s.cur].status = TS::Mutex; s.th[s.cur].wait = m; s.th[s.cur].yielded = true;
        E.pickNext(s);
        return R::Redo;
      }
      ms.readers.push_back(me);
      for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
      ret = vC(32, 0);
      return R::Next;
    });
  def("pthread_rwlock_unlock", [wake](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      MState & ms = s.mtx[m];
      int me = static_cast<int>(s.cur);
      auto it = std::find(ms.readers.begin(), ms.readers.end(), me);
      if (ms.owner == me) {ms.owner = -1;} else if (it != ms.readers.end()) {ms.readers.erase(it);} else {
        E.violate(s, "deadlock", "unlock of an rwlock the thread does not hold", nullptr);
        throw PathEnd{"violation"};
      }
      // readers' clocks are joined too: a later writer is ordered after them
      for (int i = 0; i < 5; i++) {ms.vc[i] = std::max(ms.vc[i], s.th[s.cur].vc[i]);}
      s.th[s.cur].vc[s.cur]++;
      wake(s, m);
      ret = vC(32, 0);
      return R::Next;
    });
  for (bool wr : {false, true}) {
    def(wr ? "pthread_rwlock_trywrlock" : "pthread_rwlock_tryrdlock", [wr](BARGS) -> R {
        UNUSED;
        uint64_t m = E.concretize(s, a[0]);
        E.yieldPoint(s, Yield::Try);
        MState & ms = s.mtx[m];
        int me = static_cast<int>(s.cur);
        if (ms.owner >= 0 || (wr && !ms.readers.empty())) {ret = vC(32, 16); return R::Next;}
        if (wr) {ms.owner = me; ms.count = 1;} else {ms.readers.push_back(me);}
        for (int i = 0; i < 5; i++) {s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], ms.vc[i]);}
        ret = vC(32, 0);
        return R::Next;
      });
  }
  // a condition variable: waiting ends at a notification issued after it began, and never by itself
  def("vp_rt_cond_wait", [wake](BARGS) -> R {
      UNUSED;
      uint64_t c = E.concretize(s, a[0]), m = E.concretize(s, a[1]);
      Thread & t = s.th[s.cur];
      if (t.condWait == c) {  // woken
        t.condWait = 0;
        return R::Next;
      }
      MState & ms = s.mtx[m];
      if (ms.owner != static_cast<int>(s.cur)) {
        E.violate(s, "deadlock", "wait on a condition variable without its mutex", nullptr);
        throw PathEnd{"violation"};
      }
      ms.owner = -1;
      ms.vc = t.vc;
      t.vc[s.cur]++;
      wake(s, m);
      t.condWait = c;
      t.status = TS::Mutex;
      t.wait = c;
      E.pickNext(s);
      return R::Redo;
    });
  def("vp_rt_cond_notify", [wake](BARGS) -> R {
      UNUSED;
      wake(s, E.concretize(s, a[0]));
      return R::Next;
    });
  for (const char * n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init",
      "pthread_rwlock_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"})
  {
    def(n, [](BARGS) -> R {UNUSED; ret = vC(32, 0); return R::Next;});
  }
  def("vp_spawn", [](BARGS) -> R {
      UNUSED;
      uint64_t fn = E.concretize(s, a[0]);
      Function * F = E.fnAt(fn);
      if (!F || s.th.size() >= 5) {E.engineError(s, "vp_spawn");}
      uint32_t me = s.cur;
      Frame & f = s.th[me].st.back();
      if (I.dst >= 0) {f.regs[I.dst] = vC(32, s.th.size());}
      if (I.op == Instruction::Invoke) {E.gotoBB(s, f, I.bbs[0]);} else {f.pc++;}
      s.th.emplace_back();
      uint32_t id = static_cast<uint32_t>(s.th.size() - 1);
      s.th[id].vc = s.th[me].vc;
      s.th[id].vc[id] = 1;
      s.th[me].vc[me]++;
      s.cur = id;
      std::vector<Val> ar{a[1]};
      E.pushCall(s, F, ar, false);
      s.cur = me;
      return R::Pushed;
    });
  def("vp_join", [](BARGS) -> R {
      UNUSED;
      bool all = true;
      for (size_t i = 0; i < s.th.size(); i++) {if (i != s.cur && s.th[i].status != TS::Done) {all = false;}}
      if (!all) {
        s.th[s.cur].status = TS::Join;
        E.pickNext(s);
        return R::Redo;
      }
      for (size_t i = 0; i < s.th.size(); i++) {
        for (int k = 0; k < 5; k++) {s.th[s.cur].vc[k] = std::max(s.th[s.cur].vc[k], s.th[i].vc[k]);}
      }
      return R::Next;
    });
  for (auto n : {"sched_yield", "nanosleep", "clock_nanosleep", "usleep"}) {
    def(n, [](BARGS) -> R {UNUSED; E.yieldPoint(s, Yield::Spin); ret = vC(32, 0); return R::Next;});
  }
  def("pthread_self", [](BARGS) -> R {UNUSED; ret = vC(64, 4096 + s.cur); return R::Next;});
  def("vp_yield", [](BARGS) -> R {UNUSED; E.yieldPoint(s); return R::Next;});
  def("vp_thread_id", [](BARGS) -> R {UNUSED; ret = vC(32, s.cur); return R::Next;});
  def("vp_norace", [](BARGS) -> R {
      UNUSED;
      uint64_t p = E.concretize(s, a[0]);
      Obj * o = E.rd(s, p, 0, "norace");
      E.own(s, o->id)->norace = true;
      return R::Next;
    });
  def("vp_mutex_held", [](BARGS) -> R {
      UNUSED;
      uint64_t m = E.concretize(s, a[0]);
      auto it = s.mtx.find(m);
      ret = vC(32, it != s.mtx.end() && (it->second.owner >= 0 || !it->second.readers.empty()));
      return R::Next;
    });
  // ---- harness interface
  auto fresh = [](State & s, const std::string & base) {
      return base + "#" + std::to_string(s.symCount[base]++);
    };
  def("vp_sym", [fresh](BARGS) -> R {
      UNUSED;
      std::string n = fresh(s, E.readStr(s, E.concretize(s, a[0])));
      uint32_t w = static_cast<uint32_t>(E.concretize(s, a[1]));
      const Expr * v = mkVar(n, w);
      s.syms.push_back({n, v->p, w, -1});
      if (s.model.val.size() <= v->p) {s.model.val.resize(v->p + 1, 0);}
      s.model.val[v->p] = 0;
      ret = vE(mkZExt(v, 64));
      return R::Next;
    });
  def("vp_choose", [fresh](BARGS) -> R {
      UNUSED;
      std::string n = fresh(s, E.readStr(s, E.concretize(s, a[0])));
      uint64_t k = E.concretize(s, a[1]);
      if (k == 0) {E.engineError(s, "vp_choose(0)");}
      for (uint64_t i = k; i-- > 1; ) {
        auto c = std::make_unique<State>(s);
        c->id = ++E.nextState;
        c->syms.push_back({n, 0, 64, static_cast<int64_t>(i)});
        E.finishCall(*c, vC(64, i));
        E.work.push_back(std::move(c));
        E.forks++;
      }
      s.syms.push_back({n, 0, 64, 0});
      ret = vC(64, 0);
      return R::Next;
    });
  def("vp_assume", [](BARGS) -> R {
      UNUSED;
      E.assumes++;
      if (conc(a[0])) {
        if (!a[0].c) {throw PathEnd{"assume"};}
        return R::Next;
      }
      const Expr * c = mkNot(mkEq(a[0].e, mkC(a[0].w, 0)));
      if (evalBool(c, s.model)) {E.addC(s, c); return R::Next;}
      Model m;
      Res r = checkSat(s.cs, c, s.model, m);
      if (r == Res::UNKNOWN) {E.engineError(s, "solver timeout on an assumption");}
      if (r == Res::UNSAT) {throw PathEnd{"assume"};}
      s.model = m;
      E.addC(s, c);
      return R::Next;
    });
  def("vp_check", [](BARGS) -> R {
      UNUSED;
      E.checks++;
      if (conc(a[0])) {
        if (!a[0].c) {
          E.violate(s, "check", E.readStr(s, E.concretize(s, a[1])), nullptr);
          throw PathEnd{"violation"};
        }
        return R::Next;
      }
      E.checksSym++;
      const Expr * bad = mkEq(a[0].e, mkC(a[0].w, 0));
      Model m;
      Res r = checkSat(s.cs, bad, s.model, m, true);
      if (r == Res::UNKNOWN) {E.engineError(s, "solver timeout on a check");}
      if (r == Res::SAT) {
        E.violate(s, "check", E.readStr(s, E.concretize(s, a[1])), bad);
        const Expr * good = mkNot(bad);
        Res g = evalBool(good, s.model) ? Res::SAT : checkSat(s.cs, good, s.model, m);
        if (g != Res::SAT) {throw PathEnd{"violation"};}
        if (!evalBool(good, s.model)) {s.model = m;}
        E.addC(s, good);
      }
      return R::Next;
    });
  def("vp_cover", [](BARGS) -> R {
      UNUSED; s.covers.push_back(E.readStr(s, E.concretize(s, a[0]))); return R::Next;
    });
  def("vp_observe", [](BARGS) -> R {
      UNUSED; s.obs.push_back({E.readStr(s, E.concretize(s, a[0])), {a[1]}, false}); return R::Next;
    });
  def("vp_observe_mem", [](BARGS) -> R {
      UNUSED;
      ObsRec r; r.name = E.readStr(s, E.concretize(s, a[0])); r.str = true;
      uint64_t p = E.concretize(s, a[1]), n = E.concretize(s, a[2]);
      for (uint64_t i = 0; i < n; i++) {
        Obj * o = E.rd(s, p + i, 1, "read");
        r.vals.push_back(E.readObj(s, o, p + i - o->base, 1, 8));
      }
      s.obs.push_back(r);
      return R::Next;
    });
  def("vp_concretize", [](BARGS) -> R {UNUSED; ret = vC(64, E.concretize(s, a[0])); return R::Next;});
  def("vp_param", [](BARGS) -> R {
      UNUSED;
      std::string n = E.readStr(s, E.concretize(s, a[0]));
      auto it = E.params.find(n);
      ret = it == E.params.end() ? a[1] : vC(64, static_cast<uint64_t>(it->second));
      return R::Next;
    });
  def("vp_live_heap", [](BARGS) -> R {UNUSED; ret = vC(64, static_cast<uint64_t>(s.liveHeap)); return R::Next;});
  def("vp_is_freed", [](BARGS) -> R {
      UNUSED;
      Obj * o = E.find(s, E.concretize(s, a[0]));
      ret = vC(32, !o || o->freed);
      return R::Next;
    });
  def("vp_symbolic", [](BARGS) -> R {UNUSED; ret = vC(32, 1); return R::Next;});
  def("vp_stop", [](BARGS) -> R {UNUSED; throw PathEnd{"complete"}; return R::Ended;});
  def("vp_fail_new", [](BARGS) -> R {
      UNUSED;
      ret = vC(64, s.newLeft);
      s.newLeft = E.concretize(s, a[0]);
      return R::Next;
    });
  def("vp_unmodelled", [](BARGS) -> R {
      UNUSED; E.engineError(s, "unmodelled: " + E.readStr(s, E.concretize(s, a[0]))); return R::Ended;
    });
}
}  // namespace sx
