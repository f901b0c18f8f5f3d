#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unistd.h>
SolverStats g_sstats; unsigned g_solverTimeoutMs = 120000;
static Z3_context C; static Z3_solver S; static Z3_sort B8; 
struct CacheEnt { std::vector<u32> ids; int first; std::vector<std::pair<u32,u8>> second; };
static std::unordered_map<u64, CacheEnt> cache;

static void initz3() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  S = getenv("KSYM_TACTIC") ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")) : Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
  Z3_solver_set_params(C, S, p);
  B8 = Z3_mk_bv_sort(C, 8);
}
static Z3_ast zbv(Expr* e); static Z3_ast zbool(Expr* e);
static Z3_ast numeral(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64)), lo = Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64));
  return Z3_mk_concat(C, hi, lo);
}
static Z3_ast zbool(Expr* e) {
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch (e->op) {
    case CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_eq(C, zbool(e->a), zbool(e->b)) : Z3_mk_eq(C, zbv(e->a), zbv(e->b)); break;
    case ULT: r = Z3_mk_bvult(C, zbv(e->a), zbv(e->b)); break;
    case ULE: r = Z3_mk_bvule(C, zbv(e->a), zbv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(C, zbv(e->a), zbv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(C, zbv(e->a), zbv(e->b)); break;
    case AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case XOR: if (isC(e->b)) r = Z3_mk_not(C, zbool(e->a)); else r = Z3_mk_xor(C, zbool(e->a), zbool(e->b)); break;
    case ITE: r = Z3_mk_ite(C, zbool(e->a), zbool(e->b), zbool(e->d)); break;
    default: r = Z3_mk_eq(C, zbv(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
  Z3_inc_ref(C, r); e->zbool = r; return r;
}
static Z3_ast zbv(Expr* e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r;
  switch (e->op) {
    case CONST: r = numeral(e->c, e->w); break;
    case VAR: { char n[16]; snprintf(n, 16, "v%u", e->x); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), B8); break; }
    case EQ: case ULT: case ULE: case SLT: case SLE:
      r = Z3_mk_ite(C, zbool(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))); break;
    case ADD: r = Z3_mk_bvadd(C, zbv(e->a), zbv(e->b)); break; case SUB: r = Z3_mk_bvsub(C, zbv(e->a), zbv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(C, zbv(e->a), zbv(e->b)); break; case UDIV: r = Z3_mk_bvudiv(C, zbv(e->a), zbv(e->b)); break;
    case UREM: r = Z3_mk_bvurem(C, zbv(e->a), zbv(e->b)); break; case SDIV: r = Z3_mk_bvsdiv(C, zbv(e->a), zbv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(C, zbv(e->a), zbv(e->b)); break;
    case AND: r = Z3_mk_bvand(C, zbv(e->a), zbv(e->b)); break; case OR: r = Z3_mk_bvor(C, zbv(e->a), zbv(e->b)); break;
    case XOR: r = Z3_mk_bvxor(C, zbv(e->a), zbv(e->b)); break; case SHL: r = Z3_mk_bvshl(C, zbv(e->a), zbv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(C, zbv(e->a), zbv(e->b)); break; case ASHR: r = Z3_mk_bvashr(C, zbv(e->a), zbv(e->b)); break;
    case ITE: r = Z3_mk_ite(C, zbool(e->a), zbv(e->b), zbv(e->d)); break;
    case CONCAT: r = Z3_mk_concat(C, zbv(e->a), zbv(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(C, e->x + e->w - 1, e->x, zbv(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, zbv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, zbv(e->a)); break;
    default: abort();
  }
  Z3_inc_ref(C, r); e->zbv = r; return r;
}
std::string smtlib(const std::vector<Expr*>& cs) {
  if (!C) initz3();
  Z3_solver_reset(C, S); for (auto e : cs) Z3_solver_assert(C, S, zbool(e));
  std::string s = "(set-logic QF_BV)\n"; s += Z3_solver_to_string(C, S); s += "(check-sat)\n"; return s;
}
int solveQuery(const std::vector<Expr*>& cs, std::vector<u8>& model) {
  if (!C) initz3();
  std::vector<u32> ids; for (auto e : cs) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  u64 h = 1469598103934665603ull, h2 = 0; for (u32 i : ids) { h ^= i; h *= 1099511628211ull; h ^= h >> 29; h2 = h2 * 31 + i; } h ^= h2 << 17;
  auto it = cache.find(h);
  if (it != cache.end() && it->second.ids == ids) { g_sstats.cacheHits++;
    if (it->second.first == 1) for (auto& p : it->second.second) { if (p.first >= model.size()) model.resize(p.first + 1); model[p.first] = p.second; }
    return it->second.first; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_reset(C, S);
  for (auto e : cs) Z3_solver_assert(C, S, zbool(e));
  Z3_lbool r = Z3_solver_check(C, S);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sstats.secs += dt; if (dt > g_sstats.maxq) g_sstats.maxq = dt; g_sstats.queries++;
  if (dt > 2) if (const char* d = getenv("KSYM_SLOW")) { std::string fn = std::string(d) + "/q" + std::to_string(getpid()) + "-" + std::to_string(g_sstats.queries) + ".smt2"; if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "; %f s\n(set-logic QF_BV)\n%s(check-sat)\n", dt, Z3_solver_to_string(C, S)); fclose(f); } }
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  std::vector<std::pair<u32,u8>> mv;
  if (res == 1) {
    g_sstats.sat++;
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    std::set<u32> vs; for (auto e : cs) for (u32 v : support(e)) vs.insert(v);
    for (u32 v : vs) { Z3_ast o; u64 x = 0; if (Z3_model_eval(C, m, zbv(mkVar(v)), true, &o)) { Z3_inc_ref(C, o); Z3_get_numeral_uint64(C, o, (uint64_t*)&x); Z3_dec_ref(C, o); }
      if (v >= model.size()) model.resize(v + 1); model[v] = (u8)x; mv.push_back({v, (u8)x}); }
    Z3_model_dec_ref(C, m);
    // sanity: the model must satisfy the constraints
    g_epoch++; for (auto e : cs) if (!evalExpr(e, model)) { fprintf(stderr, "FATAL: solver model does not satisfy %s\n", exprStr(e).c_str()); exit(3); }
  } else if (res == 0) g_sstats.unsat++; else { g_sstats.unknown++; return -1; }
  if (cache.size() > 400000) cache.clear();
  cache[h] = CacheEnt{std::move(ids), res, std::move(mv)};
  return res;
}

bool solveAll(const std::vector<Expr*>& cs, Expr* e, size_t limit, const std::vector<u8>& base, std::vector<std::pair<u64, std::vector<u8>>>& out, bool (*stop)()) {
  if (!C) initz3();
  auto t0 = std::chrono::steady_clock::now(); Z3_solver_reset(C, S); for (auto c : cs) Z3_solver_assert(C, S, zbool(c));
  std::set<u32> vs; for (auto c : cs) for (u32 v : support(c)) vs.insert(v); for (u32 v : support(e)) vs.insert(v);
  for (auto& p : out) { Z3_ast z = Z3_mk_not(C, Z3_mk_eq(C, zbv(e), numeral(p.first, e->w))); Z3_solver_assert(C, S, z); }
  bool ok = false; const size_t many = 32; auto first = out[0]; std::set<u64> seen; for (auto& p : out) seen.insert(p.first);
  auto take = [&]() -> u64 {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); std::vector<u8> mod = base;
    for (u32 v : vs) { Z3_ast o; u64 x = 0; if (Z3_model_eval(C, m, zbv(mkVar(v)), true, &o)) { Z3_inc_ref(C, o); Z3_get_numeral_uint64(C, o, (uint64_t*)&x); Z3_dec_ref(C, o); } if (v >= mod.size()) mod.resize(v + 1); mod[v] = (u8)x; }
    Z3_model_dec_ref(C, m);
    g_epoch++; for (auto c : cs) if (!evalExpr(c, mod)) { fprintf(stderr, "FATAL: solver model does not satisfy %s\n", exprStr(c).c_str()); exit(3); }
    u64 x = (u64)evalExpr(e, mod); if (!seen.insert(x).second) { fprintf(stderr, "FATAL: repeated value\n"); exit(3); }
    out.push_back({x, mod}); return x;
  };
  for (;;) {
    Z3_lbool r = Z3_solver_check(C, S); g_sstats.queries++;
    if (r == Z3_L_FALSE) { g_sstats.unsat++; ok = true; break; } if (r != Z3_L_TRUE) { g_sstats.unknown++; break; } g_sstats.sat++;
    u64 x = take(); if (out.size() > limit || out.size() > many || stop()) break;
    Z3_solver_assert(C, S, Z3_mk_not(C, Z3_mk_eq(C, zbv(e), numeral(x, e->w))));
  }
  if (!ok && out.size() > many && out.size() <= limit && e->w <= 64 && !stop()) {
    // many values: split on the bits, most significant first, with one literal per bit; every subtree is either entered or refuted
    Z3_solver_reset(C, S); for (auto c : cs) Z3_solver_assert(C, S, zbool(c)); unsigned w = e->w; std::vector<Z3_ast> pos, neg; Z3_sort bs = Z3_mk_bool_sort(C);
    for (unsigned i = 0; i < w; i++) { Z3_ast l = Z3_mk_fresh_const(C, "bit", bs); Z3_inc_ref(C, l); Z3_ast n = Z3_mk_not(C, l); Z3_inc_ref(C, n); pos.push_back(l); neg.push_back(n); unsigned k = w - 1 - i; Z3_solver_assert(C, S, Z3_mk_eq(C, l, Z3_mk_eq(C, Z3_mk_extract(C, k, k, zbv(e)), numeral(1, 1)))); }
    out.clear(); seen.clear(); out.push_back(first); seen.insert(first.first); std::vector<std::pair<u64, unsigned>> todo{{first.first, 0}}; ok = true;
    while (ok && !todo.empty()) {
      auto [x, d] = todo.back(); todo.pop_back(); std::vector<Z3_ast> as; for (unsigned i = 0; i < d; i++) as.push_back((x >> (w - 1 - i)) & 1 ? pos[i] : neg[i]);
      for (unsigned i = d; i < w && ok; i++) {
        bool bit = (x >> (w - 1 - i)) & 1; as.push_back(bit ? neg[i] : pos[i]); Z3_lbool r = Z3_solver_check_assumptions(C, S, as.size(), as.data()); g_sstats.queries++;
        if (r == Z3_L_TRUE) { g_sstats.sat++; u64 y = take(); todo.push_back({y, i + 1}); if (out.size() > limit || stop()) ok = false; } else if (r == Z3_L_FALSE) g_sstats.unsat++; else { g_sstats.unknown++; ok = false; }
        as.back() = bit ? pos[i] : neg[i];
      }
    }
    for (auto l : pos) Z3_dec_ref(C, l); for (auto l : neg) Z3_dec_ref(C, l);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_sstats.secs += dt; if (dt > g_sstats.maxq) g_sstats.maxq = dt; return ok;
}
