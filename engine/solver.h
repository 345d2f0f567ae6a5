// Z3 back end: incremental assumption-based solver, query cache, counterexample pool.
#pragma once
#include "expr.h"
#include <chrono>
#include <deque>
#include <stdexcept>
#include <cstdio>

struct Undecided : std::runtime_error { using std::runtime_error::runtime_error; };
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

inline double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  ExprPool& P;
  Z3_context ctx; Z3_solver sol = nullptr;
  std::unordered_map<uint32_t, Z3_ast> lit;   // constraint id -> proxy literal in the current solver
  size_t asserted = 0;
  double solver_time = 0, max_query = 0; uint64_t n_query = 0, n_sat = 0, n_unsat = 0, n_cache = 0, n_pool = 0, n_fallback = 0;
  bool has_fp = false;
  unsigned timeout_ms = 60000; double query_s = 1e6, deadline = 1e18;
  std::string dump_dir; int dump_every = 0; uint64_t dumped = 0;
  struct Res { bool sat; std::vector<std::pair<uint32_t, uint8_t>> model; };
  std::unordered_map<std::string, Res> cache;
  std::deque<std::vector<uint8_t>> pool;

  static void onerr(Z3_context, Z3_error_code) {}
  Solver(ExprPool& p) : P(p) {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, nullptr);
    Z3_set_error_handler(ctx, onerr);
  }
  Z3_ast keep(Z3_ast a) { if (!a) throw Unsupported(std::string("z3 error: ") + Z3_get_error_msg(ctx, Z3_get_error_code(ctx))); Z3_inc_ref(ctx, a); return a; }
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
  Z3_ast bv(E e) { Z3_ast t = tz(e); if (e->width == 1) return keep(Z3_mk_ite(ctx, t, num(1, 1), num(0, 1))); return t; }
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx); }
  Z3_ast fp(E e) { has_fp = true; return Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->width)); }
  Z3_ast tz(E e) {
    if (e->z3) return e->z3;
    Z3_ast r = nullptr; E a = e->k[0], b = e->k[1]; unsigned w = e->width; bool B = w == 1;
    switch (e->op) {
      case O_CONST: r = B ? (e->aux ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->aux, w); break;
      case O_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long)e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(8)); break; }
      case O_ADD: r = Z3_mk_bvadd(ctx, tz(a), tz(b)); break;
      case O_SUB: r = Z3_mk_bvsub(ctx, tz(a), tz(b)); break;
      case O_MUL: r = Z3_mk_bvmul(ctx, tz(a), tz(b)); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, tz(a), tz(b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(ctx, tz(a), tz(b)); break;
      case O_UREM: r = Z3_mk_bvurem(ctx, tz(a), tz(b)); break;
      case O_SREM: r = Z3_mk_bvsrem(ctx, tz(a), tz(b)); break;
      case O_AND: { Z3_ast x[2] = {tz(a), tz(b)}; r = B ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvand(ctx, x[0], x[1]); break; }
      case O_OR: { Z3_ast x[2] = {tz(a), tz(b)}; r = B ? Z3_mk_or(ctx, 2, x) : Z3_mk_bvor(ctx, x[0], x[1]); break; }
      case O_XOR: r = B ? Z3_mk_xor(ctx, tz(a), tz(b)) : Z3_mk_bvxor(ctx, tz(a), tz(b)); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, tz(a), tz(b)); break;
      case O_LSHR: r = Z3_mk_bvlshr(ctx, tz(a), tz(b)); break;
      case O_ASHR: r = Z3_mk_bvashr(ctx, tz(a), tz(b)); break;
      case O_EQ: r = Z3_mk_eq(ctx, tz(a), tz(b)); break;
      case O_ULT: r = Z3_mk_bvult(ctx, tz(a), tz(b)); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, tz(a), tz(b)); break;
      case O_NOT: r = Z3_mk_not(ctx, tz(a)); break;
      case O_ITE: r = Z3_mk_ite(ctx, tz(a), tz(b), tz(e->k[2])); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, bv(a), bv(b)); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, bv(a)); if (B) { keep(r); r = Z3_mk_eq(ctx, r, num(1, 1)); } break;
      case O_SEXT: r = Z3_mk_sign_ext(ctx, w - a->width, bv(a)); break;
      case O_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), fp(a), fp(b))); break;
      case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), fp(a), fp(b))); break;
      case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), fp(a), fp(b))); break;
      case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), fp(a), fp(b))); break;
      case O_FP2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(a), w); break;
      case O_FP2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(a), w); break;
      case O_SI2FP: has_fp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), bv(a), fps(w))); break;
      case O_UI2FP: has_fp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), bv(a), fps(w))); break;
      case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), fp(a), fps(w))); break;
      default: throw Unsupported("z3 translation");
    }
    return e->z3 = keep(r);
  }
  void reset_solver() {
    if (sol) Z3_solver_dec_ref(ctx, sol);
    for (auto& p : lit) Z3_dec_ref(ctx, p.second);
    lit.clear(); asserted = 0;
    sol = has_fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, sol);
    Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr);
    Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)std::min<double>(timeout_ms, query_s * 500));
    Z3_solver_set_params(ctx, sol, pr); Z3_params_dec_ref(ctx, pr);
  }
  void get_model(Z3_solver s, const std::vector<E>& cs, Res& r) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    std::vector<uint64_t> u;
    for (E c : cs) { auto* ss = P.syms(c); if (u.size() < ss->w.size()) u.resize(ss->w.size(), 0); for (size_t i = 0; i < ss->w.size(); i++) u[i] |= ss->w[i]; }
    for (size_t i = 0; i < u.size(); i++) for (uint64_t x = u[i]; x; x &= x - 1) {
      uint32_t si = i * 64 + __builtin_ctzll(x); Z3_ast v = nullptr;
      if (Z3_model_eval(ctx, m, tz(P.symexpr[si]), true, &v) && v) { Z3_inc_ref(ctx, v); uint64_t n = 0; Z3_get_numeral_uint64(ctx, v, &n); Z3_dec_ref(ctx, v); r.model.push_back({si, (uint8_t)n}); }
    }
    Z3_model_dec_ref(ctx, m);
  }
  // Decide satisfiability of the conjunction; fills model (updates of symbol values) when sat.
  const Res& check(std::vector<E> cs) {
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key; key.reserve(cs.size() * 4);
    for (E e : cs) key.append((const char*)&e->id, 4);
    auto it = cache.find(key);
    if (it != cache.end()) { n_cache++; return it->second; }
    Res r; r.sat = false;
    // counterexample pool
    for (auto& m : pool) {
      P.begin_eval(m); bool ok = true;
      for (E e : cs) if (!P.ev(e)) { ok = false; break; }
      if (ok) {
        n_pool++; r.sat = true; std::vector<uint64_t> u;
        for (E c : cs) { auto* ss = P.syms(c); if (u.size() < ss->w.size()) u.resize(ss->w.size(), 0); for (size_t i = 0; i < ss->w.size(); i++) u[i] |= ss->w[i]; }
        for (size_t i = 0; i < u.size(); i++) for (uint64_t x = u[i]; x; x &= x - 1) { uint32_t si = i * 64 + __builtin_ctzll(x); r.model.push_back({si, si < m.size() ? m[si] : (uint8_t)0}); }
        return cache.emplace(std::move(key), std::move(r)).first->second;
      }
    }
    double t0 = now_s();
    bool fp0 = has_fp;
    for (E e : cs) tz(e);
    if (!sol || asserted > 60 || fp0 != has_fp) reset_solver();
    std::vector<Z3_ast> as;
    for (E e : cs) {
      auto l = lit.find(e->id);
      if (l == lit.end()) {
        char nm[32]; snprintf(nm, sizeof nm, "p%u", e->id);
        Z3_ast p = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)));
        Z3_solver_assert(ctx, sol, Z3_mk_implies(ctx, p, tz(e)));
        asserted++; l = lit.emplace(e->id, p).first;
      }
      as.push_back(l->second);
    }
    Z3_lbool rr = Z3_solver_check_assumptions(ctx, sol, as.size(), as.data());
    if (rr == Z3_L_TRUE) { r.sat = true; get_model(sol, cs, r); if (!verify(cs, r)) { rr = Z3_L_UNDEF; r.model.clear(); } }
    if (rr == Z3_L_UNDEF) { // fresh, non-incremental attempt
      n_fallback++;
      Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2);
      for (E e : cs) Z3_solver_assert(ctx, s2, tz(e));
      double left = std::min(query_s, deadline - now_s()); Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr); Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)std::max(1000.0, std::min(left * 1000, 4e9))); Z3_solver_set_params(ctx, s2, pr); Z3_params_dec_ref(ctx, pr);
      rr = Z3_solver_check(ctx, s2);
      if (rr == Z3_L_TRUE) { r.sat = true; get_model(s2, cs, r); if (!verify(cs, r)) { throw Unsupported("model does not satisfy its query"); } }
      else if (rr == Z3_L_UNDEF) { std::string why = Z3_solver_get_reason_unknown(ctx, s2); Z3_solver_dec_ref(ctx, s2); solver_time += now_s() - t0; max_query = std::max(max_query, now_s() - t0); throw Undecided(why); }
      Z3_solver_dec_ref(ctx, s2);
    }
    double dt = now_s() - t0; solver_time += dt; max_query = std::max(max_query, dt); n_query++; (r.sat ? n_sat : n_unsat)++;
    if (dump_every && n_query % dump_every == 0 && !dump_dir.empty()) dump(cs, r.sat);
    if (r.sat) {
      std::vector<uint8_t> m(P.syminfo.size(), 0);
      for (auto& p : r.model) m[p.first] = p.second;
      pool.push_front(std::move(m)); if (pool.size() > 12) pool.pop_back();
    }
    return cache.emplace(std::move(key), std::move(r)).first->second;
  }
  bool verify(const std::vector<E>& cs, const Res& r) {
    std::vector<uint8_t> m(P.syminfo.size(), 0);
    for (auto& p : r.model) m[p.first] = p.second;
    P.begin_eval(m);
    for (E e : cs) if (!P.ev(e)) return false;
    return true;
  }
  void dump(const std::vector<E>& cs, bool sat) {
    std::vector<Z3_ast> v; for (E e : cs) v.push_back(tz(e));
    Z3_string s = Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", sat ? "sat" : "unsat", "", v.size() - 1, v.data(), v.back());
    char nm[64]; snprintf(nm, sizeof nm, "/q%06llu_%s.smt2", (unsigned long long)dumped++, sat ? "sat" : "unsat");
    FILE* f = fopen((dump_dir + nm).c_str(), "w"); if (f) { fputs(s, f); fclose(f); }
  }
};
