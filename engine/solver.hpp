// Z3 back end: independence slicing, counterexample reuse, query cache.
#pragma once
#include <string>
#include <vector>
#include "expr.hpp"

namespace sx {
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t asked = 0;        // decisions requested by the executor
  uint64_t bymodel = 0;      // settled by an already known satisfying assignment
  uint64_t bycache = 0;
  uint64_t smt = 0;          // decided by an SMT call
  uint64_t sat = 0, unsat = 0, unknown = 0;
  double seconds = 0, maxs = 0;
};
extern SolverStats g_ss;
extern unsigned g_timeout_ms;
extern std::string g_dump_dir;
extern unsigned g_dump_max;

// Is (conjunction of cs) && q satisfiable?  cs is known satisfiable and `cur`
// satisfies it.  On SAT, `out` satisfies cs && q.
Res checkSat(const std::vector<const Expr *> & cs, const Expr * q, const Model & cur, Model & out,
  bool isAssertion = false);
}  // namespace sx
