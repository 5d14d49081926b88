#include <cstdio>
#include <cstring>
#include "engine.hpp"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

// Replaces the thread-local globals in a constant by the current thread's objects; null if there are none.
static llvm::Value * own(llvm::Constant * c, llvm::Instruction * at)
{
  if (auto * g = llvm::dyn_cast<llvm::GlobalVariable>(c)) {
    if (!g->isThreadLocal()) {return nullptr;}
    llvm::IRBuilder<> b(at);
    return b.CreateThreadLocalAddress(g);
  }
  auto * e = llvm::dyn_cast<llvm::ConstantExpr>(c);
  if (!e) {return nullptr;}
  llvm::Instruction * n = nullptr;
  for (unsigned k = 0; k < e->getNumOperands(); k++) {
    if (llvm::Value * v = own(e->getOperand(k), n ? n : at)) {
      if (!n) {n = e->getAsInstruction(at);}
      if (auto * vi = llvm::dyn_cast<llvm::Instruction>(v)) {vi->moveBefore(n);}
      n->setOperand(k, v);
    }
  }
  return n;
}

// clang 18 initialises thread-local objects through their global names, and reads their guards so.
static void threadLocals(llvm::Module & m)
{
  bool any = false;
  for (auto & g : m.globals()) {any |= g.isThreadLocal();}
  if (!any) {return;}
  for (auto & f : m) {
    std::vector<llvm::Instruction *> all;
    for (auto & b : f) {for (auto & i : b) {all.push_back(&i);}}
    for (auto * i : all) {
      if (auto * x = llvm::dyn_cast<llvm::IntrinsicInst>(i)) {
        if (x->getIntrinsicID() == llvm::Intrinsic::threadlocal_address) {continue;}
      }
      for (unsigned k = 0; k < i->getNumOperands(); k++) {
        auto * c = llvm::dyn_cast<llvm::Constant>(i->getOperand(k));
        if (!c) {continue;}
        auto * phi = llvm::dyn_cast<llvm::PHINode>(i);
        if (llvm::Value * v = own(c, phi ? phi->getIncomingBlock(k)->getTerminator() : i)) {i->setOperand(k, v);}
      }
    }
  }
}

int main(int argc, char ** argv)
{
  std::string bc, entry = "vp_main", out = "/dev/stdout";
  std::vector<std::string> prefixes;
  std::map<std::string, int64_t> params;
  double maxTime = 600; uint32_t maxViol = 1, nS = 6; bool leaks = false; uint32_t atomics = 2; uint64_t memMB = 3500, maxSteps = 20000000;
  uint64_t maxPaths = 100000000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() {return std::string(argv[++i]);};
    if (a == "--entry") {entry = val();} else if (a == "--out") {out = val();} else if (a == "--repo") {
      prefixes.push_back(val());
    } else if (a == "--time") {maxTime = std::stod(val());} else if (a == "--viol") {maxViol = std::stoul(val());
    } else if (a == "--samples") {nS = std::stoul(val());} else if (a == "--leaks") {leaks = true;
    } else if (a == "--mem") {memMB = std::stoull(val());} else if (a == "--steps") {maxSteps = std::stoull(val());
    } else if (a == "--atomic-switches") {atomics = std::stoul(val());
    } else if (a == "--paths") {maxPaths = std::stoull(val());
    } else if (a == "--solver-timeout") {sx::g_timeout_ms = std::stoul(val());
    } else if (a == "--dump") {sx::g_dump_dir = val();} else if (a == "--dump-max") {sx::g_dump_max = std::stoul(val());
    } else if (a == "--param") {
      std::string p = val(); size_t e = p.find('='); params[p.substr(0, e)] = std::stoll(p.substr(e + 1));
    } else {bc = a;}
  }
  llvm::LLVMContext C; llvm::SMDiagnostic Err;
  auto M = llvm::parseIRFile(bc, Err, C);
  if (!M) {fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), Err.getMessage().str().c_str()); return 4;}
  threadLocals(*M);
  auto t0 = std::chrono::steady_clock::now();
  sx::Engine E(*M);
  E.params = params; E.atomicSwitches = atomics; E.maxTime = maxTime; E.maxViol = maxViol; E.nSamples = nS; E.checkLeaks = leaks;
  E.memLimitMB = memMB; E.maxSteps = maxSteps; E.maxPaths = maxPaths; E.repoPrefix = prefixes;
  E.run(entry);
  E.writeJson(out, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
  fflush(stdout);
  _Exit(0);
}
