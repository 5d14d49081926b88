// Symbolic executor for LLVM 18 bitcode (C++ with exceptions, threads and libstdc++ headers).
#pragma once
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"
#include "expr.hpp"
#include "solver.hpp"

namespace sx {

struct Val {
  uint64_t c = 0;
  const Expr * e = nullptr;             // non-null: symbolic, or a constant wider than 64 bits
  const std::vector<Val> * agg = nullptr;
  uint32_t w = 0;
};
inline Val vC(uint32_t w, uint64_t c)
{
  Val v; v.w = w; v.c = w >= 64 ? c : (c & ((1ull << w) - 1));
  if (w > 64) {v.e = mkC(w, c);}
  return v;
}
inline Val vE(const Expr * e)
{
  Val v; v.w = e->w;
  if (e->isC() && e->w <= 64) {v.c = e->v;} else {v.e = e;}
  return v;
}
inline const Expr * toE(const Val & v) {return v.e ? v.e : mkC(v.w, v.c);}
inline bool conc(const Val & v) {return !v.e;}

enum class OK : uint8_t { Global, Const, Stack, Heap, Func, Exc, Tls };
enum : uint8_t { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };

struct ByteSh { int8_t wt = -1; uint32_t wc = 0; uint32_t rc[5] = {0, 0, 0, 0, 0}; };

struct Obj {
  int refs = 0;
  uint32_t id = 0;
  uint64_t base = 0, size = 0;
  OK kind = OK::Global;
  uint8_t how = 0;                      // heap: 'm' malloc, 'n' new, 'a' new[]
  bool freed = false, norace = false;
  std::string name;
  std::vector<uint8_t> d;
  std::vector<uint8_t> st;              // empty: all concrete
  std::vector<const Expr *> sym;        // sized with st
  std::vector<ByteSh> sh;               // lazily sized
};
struct ObjRef {
  Obj * p = nullptr;
  ObjRef() {}
  explicit ObjRef(Obj * o) : p(o) {if (p) {p->refs++;}}
  ObjRef(const ObjRef & o) : p(o.p) {if (p) {p->refs++;}}
  ObjRef(ObjRef && o) noexcept : p(o.p) {o.p = nullptr;}
  ObjRef & operator=(ObjRef o) {std::swap(p, o.p); return *this;}
  ~ObjRef() {if (p && --p->refs == 0) {delete p;}}
};

struct Opnd { int slot = -1; Val v; };
struct FnInfo;
struct State;
struct PInst;
enum class R : uint8_t { Next, Redo, Pushed, Ended };
class Engine;
using Builtin = std::function<R (Engine &, State &, PInst &, std::vector<Val> &, Val &)>;

struct PInst {
  const llvm::Instruction * I = nullptr;
  unsigned op = 0;
  int dst = -1;
  uint32_t w = 0;                       // result width
  std::vector<Opnd> ops;
  std::vector<uint32_t> bbs;            // successor block indices
  uint64_t imm = 0;                     // GEP constant offset, alloca size, access size
  std::vector<std::pair<int, uint64_t>> idx;  // GEP (operand index, scale)
  const Builtin * bi = nullptr;
  llvm::Function * callee = nullptr;
  FnInfo * cf = nullptr;
  uint8_t seen = 0;                     // executed; bit1/bit2: branch sides taken
  bool isRepo = false;
};
struct Phi { int dst; Opnd src; };
struct FnInfo {
  llvm::Function * F = nullptr;
  std::vector<PInst> code;
  std::vector<uint32_t> bbStart;
  std::vector<uint32_t> bbBody;         // first non-phi
  std::map<std::pair<uint32_t, uint32_t>, std::vector<Phi>> edge;
  std::unordered_map<const llvm::BasicBlock *, uint32_t> bbIdx;
  unsigned nregs = 0;
  bool isRepo = false;
  uint64_t calls = 0;
};

struct Frame {
  FnInfo * f = nullptr;
  std::vector<Val> regs;
  uint32_t pc = 0;
  uint32_t bb = 0;
  std::vector<uint32_t> allocas;
  std::vector<Val> varargs;
  bool hasVal = false;
  uint8_t onRet = 0;                    // 1: frame is an exception destructor
};
struct Exc { uint64_t obj = 0; uint64_t ti = 0; uint64_t dtor = 0; };
using VC = std::array<uint32_t, 5>;
enum class TS : uint8_t { Run, Mutex, Join, Done };
struct Thread {
  std::vector<Frame> st;
  TS status = TS::Run;
  uint64_t wait = 0;
  uint64_t condWait = 0;                // the condition variable it waits on
  bool yielded = false;
  uint32_t spins = 0;                   // atomic operations and attempts at locks since it was scheduled
  bool startup = true;
  VC vc{};
  std::vector<Exc> caught;
  Exc cur;                              // exception in flight
};
struct MState { int owner = -1; int count = 0; std::vector<int> readers; VC vc{}; };

struct SymRec { std::string name; uint32_t var; uint32_t w; int64_t chosen = -1; };
struct ObsRec { std::string name; std::vector<Val> vals; bool str = false; };

struct TlsCopy { uint64_t of; uint32_t thread; uint64_t copy; };
struct State {
  uint32_t id = 0;
  std::vector<ObjRef> mem;
  std::vector<Thread> th;
  uint32_t cur = 0;
  std::vector<const Expr *> cs;
  std::unordered_set<const Expr *> csSet;
  Model model;
  std::map<std::string, uint32_t> symCount;
  std::vector<SymRec> syms;
  std::vector<ObsRec> obs;
  std::vector<uint8_t> sched;
  std::map<uint64_t, MState> mtx;
  std::map<uint64_t, VC> atomics;
  std::vector<TlsCopy> tls;
  uint64_t steps = 0;
  uint32_t uninit = 0;
  int64_t liveHeap = 0;
  uint64_t newLeft = 0;                 // calls of operator new until one fails
  uint32_t depthForks = 0;
  uint32_t preempted = 0;               // switches at atomic operations
  std::vector<std::string> covers;
  std::string exitKind;
};

struct Violation {
  std::string kind, msg, loc;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<uint32_t> widths;
  std::vector<uint8_t> sched;
  std::vector<std::pair<std::string, std::string>> obs;
};
struct PathEnd { std::string why; };

enum class Yield { Lock, Atomic, Try, Spin };
class Engine {
public:
  explicit Engine(llvm::Module & m);
  void run(const std::string & entry);
  // options
  std::map<std::string, int64_t> params;
  double maxTime = 600;
  uint64_t maxSteps = 20000000;
  uint64_t maxPaths = 100000000;
  uint32_t maxViol = 1;
  uint32_t atomicSwitches = 2;
  uint32_t nSamples = 6;
  uint64_t memLimitMB = 3500;
  bool checkLeaks = false;
  std::vector<std::string> repoPrefix;
  // results
  std::vector<Violation> viol;
  std::map<std::string, uint64_t> covers, ends, errors;
  std::map<std::string, std::string> errDetail;
  uint64_t paths = 0, steps = 0, forks = 0, checks = 0, checksSym = 0, checksConst = 0;
  uint64_t schedPoints = 0, assumes = 0;
  bool complete = true;
  std::string incompleteWhy;
  std::vector<Violation> samples;
  void writeJson(const std::string & path, double wall);

  // ---- services for builtins
  llvm::Module & M;
  const llvm::DataLayout & DL;
  std::unordered_map<std::string, Builtin> bi;
  void regBuiltins();
  bool fork(State & s, const Expr * cond, bool & outTaken);   // decide a branch
  uint64_t concretize(State & s, const Val & v);
  void addC(State & s, const Expr * e);
  void violate(State & s, const std::string & kind, const std::string & msg, const Expr * cond);
  [[noreturn]] void engineError(State & s, const std::string & why);
  Obj * newObj(State & s, uint64_t size, OK kind, const std::string & name, bool uninit);
  Obj * rd(State & s, uint64_t addr, uint64_t n, const char * what);   // bounds-checked
  Obj * wr(State & s, uint64_t addr, uint64_t n, const char * what);
  Obj * own(State & s, uint32_t idx);
  Obj * find(State & s, uint64_t addr);
  const Expr * byteAt(State & s, Obj *& o, uint64_t off);
  Val readObj(State & s, Obj * o, uint64_t off, uint32_t nbytes, uint32_t w);
  void writeObj(State & s, Obj * o, uint64_t off, const Val & v, uint32_t nbytes);
  Val load(State & s, const Val & addr, llvm::Type * T);
  void store(State & s, const Val & addr, const Val & v, llvm::Type * T);
  Val loadAt(State & s, uint64_t addr, llvm::Type * T);
  void storeAt(State & s, uint64_t addr, const Val & v, llvm::Type * T);
  std::string readStr(State & s, uint64_t addr);
  void access(State & s, Obj * o, uint64_t off, uint64_t n, bool write);
  void doFree(State & s, uint64_t addr, uint8_t how);
  void doCopy(State & s, uint64_t dst, uint64_t src, uint64_t n);
  Val memcmpVal(State & s, uint64_t a, uint64_t b, uint64_t n);
  bool yieldPoint(State & s, Yield kind = Yield::Lock);
  void pickNext(State & s);
  void unwind(State & s);
  void pushCall(State & s, llvm::Function * F, std::vector<Val> & args, bool hasRet, uint8_t onRet = 0);
  llvm::Function * fnAt(uint64_t addr);
  uint64_t addrOf(const llvm::GlobalValue * g);
  std::string loc(const llvm::Instruction * I);
  std::vector<std::string> stackOf(State & s);
  Violation snapshot(State & s, const Model & m);
  std::chrono::steady_clock::time_point t0;
  std::vector<std::unique_ptr<State>> work;
  std::set<std::string> seenViol;
  uint32_t typeIdFor(uint64_t ti);
  bool tiMatches(uint64_t thrown, uint64_t handler);

public:
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, const llvm::GlobalVariable *> tlsOf;
  std::unordered_map<uint64_t, llvm::Function *> faddr;
  std::unordered_map<const llvm::Constant *, Val> constCache;
  std::unordered_map<llvm::Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<uint64_t, uint32_t> tids;
  uint32_t nextState = 0;
  uint64_t pathsSinceSample = 0;

  FnInfo * info(llvm::Function * F);
  Val cval(const llvm::Constant * c);
  void initGlobal(State & s, uint64_t addr, const llvm::Constant * c, Obj * o);
  uint32_t bits(llvm::Type * t);
  Val & reg(State & s, int slot) {return s.th[s.cur].st.back().regs[slot];}
  Val get(Frame & f, const Opnd & o) {return o.slot >= 0 ? f.regs[o.slot] : o.v;}
  void exec(State & s);
  bool step(State & s);
  void gotoBB(State & s, Frame & f, uint32_t to);
  void retFrom(State & s, const Val & v);
  void call(State & s, PInst & I);
  void finishCall(State & s, const Val & v);
  Val binop(State & s, PInst & I, const Val & a, const Val & b);
  Val icmp(unsigned pred, const Val & a, const Val & b);
  Val castop(State & s, PInst & I, const Val & a);
  Val fpop(State & s, PInst & I, Frame & f);
  void endPath(State & s, const std::string & why);
};
}  // namespace sx
