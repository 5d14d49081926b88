// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include "llvm/ADT/APInt.h"

namespace sx {
using llvm::APInt;

enum Kind : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, NOT, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE
};

struct VarSet { std::vector<uint32_t> v; };  // sorted variable ids

struct Expr {
  Kind k;
  uint32_t w;        // width in bits
  uint32_t id;
  uint32_t p;        // EXTRACT: low bit; VAR: variable id
  const Expr * a, * b, * c;
  uint64_t v;        // CONST of width <= 64
  const APInt * big; // CONST of width > 64
  const VarSet * vs;
  bool isC() const {return k == CONST;}
};

struct VarInfo { std::string name; uint32_t w; const Expr * e; };

extern std::vector<VarInfo> g_vars;
extern uint64_t g_nexpr;

const Expr * mkC(uint32_t w, uint64_t v);
const Expr * mkAP(const APInt & a);
APInt apOf(const Expr * e);
const Expr * mkVar(const std::string & name, uint32_t w);
const Expr * mkBin(Kind k, const Expr * a, const Expr * b);
const Expr * mkNot(const Expr * a);
const Expr * mkExtract(const Expr * a, uint32_t lo, uint32_t w);
const Expr * mkConcat(const Expr * hi, const Expr * lo);
const Expr * mkZExt(const Expr * a, uint32_t w);
const Expr * mkSExt(const Expr * a, uint32_t w);
const Expr * mkIte(const Expr * c, const Expr * a, const Expr * b);
inline const Expr * mkEq(const Expr * a, const Expr * b) {return mkBin(EQ, a, b);}
inline const Expr * mkAnd(const Expr * a, const Expr * b) {return mkBin(AND, a, b);}
inline const Expr * mkOr(const Expr * a, const Expr * b) {return mkBin(OR, a, b);}
inline bool isTrue(const Expr * e) {return e->k == CONST && e->w == 1 && e->v == 1;}
inline bool isFalse(const Expr * e) {return e->k == CONST && e->w == 1 && e->v == 0;}

// Assignment of every variable id to a value; missing entries are zero.
struct Model { std::vector<uint64_t> val; uint64_t get(uint32_t id) const {
    return id < val.size() ? val[id] : 0;}};
APInt evalExpr(const Expr * e, const Model & m);
bool evalBool(const Expr * e, const Model & m);
std::string exprStr(const Expr * e, int depth = 6);
APInt foldBin(Kind k, const APInt & a, const APInt & b);
}  // namespace sx
