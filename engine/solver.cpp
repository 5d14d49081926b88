#include "solver.hpp"
#include "llvm/ADT/SmallString.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <unordered_map>
namespace sx {
SolverStats g_ss;
unsigned g_timeout_ms = 60000;
std::string g_dump_dir;
unsigned g_dump_max = 200;
static unsigned g_dumped = 0;

static Z3_context C()
{
  static Z3_context c = nullptr;
  if (!c) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    c = Z3_mk_context(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort();
      });
    Z3_del_config(cfg);
  }
  return c;
}
static std::unordered_map<const Expr *, Z3_ast> g_bv, g_bool;
static Z3_ast toBV(const Expr * e);
static Z3_ast toBool(const Expr * e);
static Z3_sort bvs(unsigned w)
{
  static std::map<unsigned, Z3_sort> m;
  auto it = m.find(w);
  if (it == m.end()) {it = m.emplace(w, Z3_mk_bv_sort(C(), w)).first;}
  return it->second;
}
static Z3_ast varAst(const Expr * e)
{
  std::string n = "v" + std::to_string(e->p);
  return Z3_mk_const(C(), Z3_mk_string_symbol(C(), n.c_str()), bvs(e->w));
}
static std::pair<Z3_ast, Z3_ast> quot(const Expr * x, uint64_t d);
static bool constDiv(const Expr * e);
static Z3_ast toBool(const Expr * e)
{
  auto it = g_bool.find(e);
  if (it != g_bool.end()) {return it->second;}
  Z3_context c = C();
  Z3_ast r;
  Z3_ast t[2];
  switch (e->k) {
    case CONST: r = e->v ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case EQ:
      if (e->a->w == 1) {r = Z3_mk_iff(c, toBool(e->a), toBool(e->b));} else {
        r = Z3_mk_eq(c, toBV(e->a), toBV(e->b));
      }
      break;
    case ULT: r = Z3_mk_bvult(c, toBV(e->a), toBV(e->b)); break;
    case ULE: r = Z3_mk_bvule(c, toBV(e->a), toBV(e->b)); break;
    case SLT: r = Z3_mk_bvslt(c, toBV(e->a), toBV(e->b)); break;
    case SLE: r = Z3_mk_bvsle(c, toBV(e->a), toBV(e->b)); break;
    case NOT: r = Z3_mk_not(c, toBool(e->a)); break;
    case AND: t[0] = toBool(e->a); t[1] = toBool(e->b); r = Z3_mk_and(c, 2, t); break;
    case OR: t[0] = toBool(e->a); t[1] = toBool(e->b); r = Z3_mk_or(c, 2, t); break;
    case XOR: r = Z3_mk_xor(c, toBool(e->a), toBool(e->b)); break;
    case ITE: r = Z3_mk_ite(c, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(c, toBV(e), Z3_mk_unsigned_int64(c, 1, bvs(1))); break;
  }
  Z3_inc_ref(c, r);
  g_bool[e] = r;
  return r;
}
static Z3_ast toBV(const Expr * e)
{
  auto it = g_bv.find(e);
  if (it != g_bv.end()) {return it->second;}
  Z3_context c = C();
  Z3_ast r;
  if (e->w == 1 && (e->k == EQ || e->k == ULT || e->k == ULE || e->k == SLT || e->k == SLE ||
    e->k == NOT || e->k == AND || e->k == OR || e->k == XOR))
  {
    r = Z3_mk_ite(c, toBool(e), Z3_mk_unsigned_int64(c, 1, bvs(1)), Z3_mk_unsigned_int64(c, 0, bvs(1)));
  } else {
    switch (e->k) {
      case CONST: {
          if (e->w <= 64) {r = Z3_mk_unsigned_int64(c, e->v, bvs(e->w));} else {
            llvm::SmallString<64> s; apOf(e).toStringUnsigned(s);
            r = Z3_mk_numeral(c, s.c_str(), bvs(e->w));
          }
          break;
        }
      case VAR: r = varAst(e); break;
      case ADD: r = Z3_mk_bvadd(c, toBV(e->a), toBV(e->b)); break;
      case SUB: r = Z3_mk_bvsub(c, toBV(e->a), toBV(e->b)); break;
      case MUL: r = Z3_mk_bvmul(c, toBV(e->a), toBV(e->b)); break;
      case UDIV:
        if (constDiv(e)) {r = quot(e->a, e->b->v).first; break;}
        r = Z3_mk_bvudiv(c, toBV(e->a), toBV(e->b)); break;
      case SDIV: r = Z3_mk_bvsdiv(c, toBV(e->a), toBV(e->b)); break;
      case UREM:
        if (constDiv(e)) {
          r = Z3_mk_bvsub(c, toBV(e->a), Z3_mk_bvmul(c, quot(e->a, e->b->v).first, toBV(e->b)));
          break;
        }
        r = Z3_mk_bvurem(c, toBV(e->a), toBV(e->b)); break;
      case SREM: r = Z3_mk_bvsrem(c, toBV(e->a), toBV(e->b)); break;
      case AND: r = Z3_mk_bvand(c, toBV(e->a), toBV(e->b)); break;
      case OR: r = Z3_mk_bvor(c, toBV(e->a), toBV(e->b)); break;
      case XOR: r = Z3_mk_bvxor(c, toBV(e->a), toBV(e->b)); break;
      case NOT: r = Z3_mk_bvnot(c, toBV(e->a)); break;
      case SHL: r = Z3_mk_bvshl(c, toBV(e->a), toBV(e->b)); break;
      case LSHR: r = Z3_mk_bvlshr(c, toBV(e->a), toBV(e->b)); break;
      case ASHR: r = Z3_mk_bvashr(c, toBV(e->a), toBV(e->b)); break;
      case CONCAT: r = Z3_mk_concat(c, toBV(e->a), toBV(e->b)); break;
      case EXTRACT: r = Z3_mk_extract(c, e->p + e->w - 1, e->p, toBV(e->a)); break;
      case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, toBV(e->a)); break;
      case SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, toBV(e->a)); break;
      case ITE: r = Z3_mk_ite(c, toBool(e->a), toBV(e->b), toBV(e->c)); break;
      default: fprintf(stderr, "toBV kind %d\n", e->k); abort();
    }
  }
  Z3_inc_ref(c, r);
  g_bv[e] = r;
  return r;
}

// Division by a constant: a quotient variable with its defining constraints instead of a divider circuit.
static std::map<std::pair<const Expr *, uint64_t>, std::pair<Z3_ast, Z3_ast>> g_quot;
static bool constDiv(const Expr * e)
{
  return (e->k == UDIV || e->k == UREM) && e->w <= 64 && e->b->k == CONST && e->b->v > 1;
}
static std::pair<Z3_ast, Z3_ast> quot(const Expr * x, uint64_t d)
{
  auto key = std::make_pair(x, d);
  auto it = g_quot.find(key);
  if (it != g_quot.end()) {return it->second;}
  Z3_context c = C();
  std::string n = "q" + std::to_string(g_quot.size());
  Z3_ast q = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bvs(x->w));
  Z3_inc_ref(c, q);
  uint64_t mx = x->w >= 64 ? ~0ull : ((1ull << x->w) - 1);
  Z3_ast D = Z3_mk_unsigned_int64(c, d, bvs(x->w));
  Z3_ast pr = Z3_mk_bvmul(c, q, D);
  Z3_ast X = toBV(x);
  Z3_ast t[3] = {Z3_mk_bvule(c, q, Z3_mk_unsigned_int64(c, mx / d, bvs(x->w))), Z3_mk_bvule(c, pr, X),
    Z3_mk_bvult(c, Z3_mk_bvsub(c, X, pr), D)};
  Z3_ast ax = Z3_mk_and(c, 3, t);
  Z3_inc_ref(c, ax);
  return g_quot[key] = {q, ax};
}
static void divAxioms(const Expr * e, std::set<const Expr *> & seen, std::vector<Z3_ast> & out)
{
  if (!e || e->k == CONST || e->k == VAR || !seen.insert(e).second) {return;}
  if (constDiv(e)) {out.push_back(quot(e->a, e->b->v).second);}
  divAxioms(e->a, seen, out); divAxioms(e->b, seen, out); divAxioms(e->c, seen, out);
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;
static std::deque<Model> g_recent;

Res checkSat(const std::vector<const Expr *> & cs, const Expr * q, const Model & cur, Model & out,
  bool isAssertion)
{
  g_ss.asked++;
  if (isFalse(q)) {return Res::UNSAT;}
  if (isTrue(q) || evalBool(q, cur)) {out = cur; g_ss.bymodel++; return Res::SAT;}
  // slice
  std::set<uint32_t> vars(q->vs->v.begin(), q->vs->v.end());
  std::vector<char> in(cs.size(), 0);
  std::vector<const Expr *> sl;
  for (bool ch = true; ch; ) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (in[i]) {continue;}
      bool hit = false;
      for (uint32_t v : cs[i]->vs->v) {if (vars.count(v)) {hit = true; break;}}
      if (hit) {
        in[i] = 1; ch = true; sl.push_back(cs[i]);
        vars.insert(cs[i]->vs->v.begin(), cs[i]->vs->v.end());
      }
    }
  }
  auto merge = [&](const Model & m) {
      out = cur;
      for (uint32_t v : vars) {
        if (out.val.size() <= v) {out.val.resize(v + 1, 0);}
        out.val[v] = m.get(v);
      }
    };
  for (const Model & m : g_recent) {
    if (!evalBool(q, m)) {continue;}
    bool ok = true;
    for (const Expr * e : sl) {if (!evalBool(e, m)) {ok = false; break;}}
    if (ok) {merge(m); g_ss.bymodel++; return Res::SAT;}
  }
  std::vector<uint32_t> key;
  for (const Expr * e : sl) {key.push_back(e->id);}
  std::sort(key.begin(), key.end());
  key.push_back(q->id);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.bycache++;
    if (it->second.r == Res::SAT) {
      Model m;
      for (auto & p : it->second.vals) {
        if (m.val.size() <= p.first) {m.val.resize(p.first + 1, 0);}
        m.val[p.first] = p.second;
      }
      merge(m);
    }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_context c = C();
  CacheEnt ent; ent.r = Res::UNKNOWN;
  g_ss.smt++;
  // first the incremental SMT core with a short limit, then the bit-blasting QF_BV solver
  for (int stage = 0; stage < 2 && ent.r == Res::UNKNOWN; stage++) {
    Z3_solver s = stage == 0 ? Z3_mk_simple_solver(c) :
      Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), stage == 0 ? 1500 : g_timeout_ms);
    Z3_solver_set_params(c, s, p);
    Z3_params_dec_ref(c, p);
    for (const Expr * e : sl) {Z3_solver_assert(c, s, toBool(e));}
    Z3_solver_assert(c, s, toBool(q));
    std::set<const Expr *> seen;
    std::vector<Z3_ast> axioms;
    for (const Expr * e : sl) {divAxioms(e, seen, axioms);}
    divAxioms(q, seen, axioms);
    for (Z3_ast a : axioms) {Z3_solver_assert(c, s, a);}
    Z3_lbool r = Z3_solver_check(c, s);
    if (r == Z3_L_TRUE) {
      ent.r = Res::SAT;
      Z3_model m = Z3_solver_get_model(c, s);
      Z3_model_inc_ref(c, m);
      for (uint32_t v : vars) {
        Z3_ast o = nullptr;
        uint64_t val = 0;
        if (Z3_model_eval(c, m, toBV(g_vars[v].e), true, &o)) {Z3_get_numeral_uint64(c, o, &val);}
        ent.vals.push_back({v, val});
      }
      Z3_model_dec_ref(c, m);
    } else if (r == Z3_L_FALSE) {ent.r = Res::UNSAT;}
    if (ent.r != Res::UNKNOWN && !g_dump_dir.empty() && isAssertion && g_dumped < g_dump_max) {
      std::ofstream f(g_dump_dir + "/q" + std::to_string(g_dumped++) + ".smt2");
      f << "(set-info :status " << (ent.r == Res::SAT ? "sat" : "unsat") << ")\n(set-logic QF_BV)\n";
      f << Z3_solver_to_string(c, s) << "(check-sat)\n";
    }
    if (ent.r == Res::UNKNOWN && !g_dump_dir.empty()) {
      std::ofstream f(g_dump_dir + "/unknown" + std::to_string(g_ss.unknown) + ".smt2");
      f << "(set-logic QF_BV)\n" << Z3_solver_to_string(c, s) << "(check-sat)\n";
    }
    Z3_solver_dec_ref(c, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.seconds += dt;
  if (dt > g_ss.maxs) {g_ss.maxs = dt;}
  if (ent.r == Res::SAT) {
    g_ss.sat++;
    Model m;
    for (auto & p : ent.vals) {
      if (m.val.size() <= p.first) {m.val.resize(p.first + 1, 0);}
      m.val[p.first] = p.second;
    }
    // a model that does not satisfy what was asked would make every later answer worthless
    bool ok = evalBool(q, m);
    for (const Expr * e : sl) {ok = ok && evalBool(e, m);}
    if (!ok) {fprintf(stderr, "FATAL: solver model does not satisfy the query\n"); abort();}
    merge(m);
    g_recent.push_front(m);
    if (g_recent.size() > 12) {g_recent.pop_back();}
  } else if (ent.r == Res::UNSAT) {g_ss.unsat++;} else {g_ss.unknown++;}
  g_cache[key] = ent;
  return ent.r;
}
}  // namespace sx
