#include "solver.hpp"
#include <z3.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <unordered_set>
SolverStats sstats; unsigned gQueryTimeoutMs = 60000; std::string gDumpDir;
static Z3_context C = nullptr;
struct Tr { std::unordered_map<E, Z3_ast> bv, bo; };
static Tr tr[2]; // [0] full, [1] hard operators abstracted by fresh constants
static std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, std::pair<Res, Model>>>> qcache;
static size_t nodesTranslated = 0;

static void initCtx() {
  if (C) return;
  // z3 5.3 crashes now and then in the subsumption step of its SAT simplifier
  Z3_global_param_set("sat.subsumption", "false");
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
}
void solverReset() { if (C) { C = nullptr; } tr[0] = Tr(); tr[1] = Tr(); qcache.clear(); nodesTranslated = 0; }
static Z3_sort S(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, S(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), S(w - 64)), Z3_mk_unsigned_int64(C, (u64)v, S(64)));
}
static Z3_ast B(E e, int ab); static Z3_ast V(E e, int ab);
static bool hard(E e) {
  switch (e->op) {
    case K::MUL: return e->width >= 24 && e->ch[1]->op != K::CONST;
    case K::UDIV: case K::SDIV: case K::UREM: case K::SREM: return e->width >= 12;
    case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: case K::FREM: case K::FSQRT: case K::FMA: case K::FROUND: case K::FPEXT: case K::FPTRUNC: case K::FPTOSI: case K::FPTOUI: case K::FPTOSISAT: case K::FPTOUISAT: case K::SITOFP: case K::UITOFP: return true;
    default: return false;
  }
}
static Z3_sort FS(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast asF(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(C, bv, FS(w)); }
static Z3_ast quiet(Z3_ast bv, unsigned w) { return Z3_mk_bvor(C, bv, num(w == 32 ? 0x400000 : 0x8000000000000ull, w)); }
static Z3_ast fres(Z3_ast r, unsigned w) { return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, r), num(w == 32 ? 0xffc00000u : 0xfff8000000000000ull, w), Z3_mk_fpa_to_ieee_bv(C, r)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static bool containsHard(E e, std::unordered_set<E>& seen) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == K::CONST || x->op == K::VAR || !seen.insert(x).second) continue; if (hard(x)) return true; for (int i = 0; i < x->nch; i++) st.push_back(x->ch[i]); }
  return false;
}
// commutative operations: the part of the result that does not depend on which operand came first is shared between both orders
// In the abstract phase the result for numbers is an uninterpreted function of the operands, with every NaN operand made the
// same and the operands of commutative operations sorted.
static bool comm(E e) { return e->op == K::FADD || e->op == K::FMUL || e->op == K::FSUB || e->op == K::FDIV; }
static bool containsComm(E e, std::unordered_set<E>& seen) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == K::CONST || x->op == K::VAR || !seen.insert(x).second) continue; if (comm(x)) return true; for (int i = 0; i < x->nch; i++) st.push_back(x->ch[i]); }
  return false;
}
static Z3_ast nanBits(Z3_ast x, unsigned w) { return Z3_mk_bvugt(C, Z3_mk_extract(C, w - 2, 0, x), num(w == 32 ? 0x7f800000u : 0x7ff0000000000000ull, w - 1)); }
static Z3_ast commOp(E e, int ab) {
  unsigned w = e->width; E x = e->ch[0], y = e->ch[1]; bool c = e->op == K::FADD || e->op == K::FMUL; if (c && x->id > y->id) std::swap(x, y);
  Z3_ast a = V(e->ch[0], ab), b = V(e->ch[1], ab), core;
  if (ab) {
    Z3_ast nan = num(w == 32 ? 0x7fc00000u : 0x7ff8000000000000ull, w);
    Z3_ast p = Z3_mk_ite(C, nanBits(a, w), nan, a), q = Z3_mk_ite(C, nanBits(b, w), nan, b);
    // a - b is a + -b, and the magnitude of a product or quotient depends on the magnitudes alone
    Z3_ast sgn = num((u128)1 << (w - 1), w), sign = nullptr; int op = (int)e->op;
    if (e->op == K::FSUB) { q = Z3_mk_bvxor(C, q, sgn); op = (int)K::FADD; c = true; }
    if (e->op == K::FMUL || e->op == K::FDIV) { sign = Z3_mk_bvand(C, Z3_mk_bvxor(C, p, q), sgn); p = Z3_mk_bvand(C, p, Z3_mk_bvnot(C, sgn)); q = Z3_mk_bvand(C, q, Z3_mk_bvnot(C, sgn)); }
    if (c) { Z3_ast le = Z3_mk_bvule(C, p, q), p2 = Z3_mk_ite(C, le, p, q), q2 = Z3_mk_ite(C, le, q, p); p = p2; q = q2; }
    char n[64]; snprintf(n, 64, "hardf!%d!%u", op, w); Z3_sort ds[2] = {S(w), S(w)}; Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n), 2, ds, S(w)); Z3_ast as[2] = {p, q}; core = Z3_mk_app(C, f, 2, as);
    if (sign) core = Z3_mk_ite(C, nanBits(core, w), num(w == 32 ? 0xffc00000u : 0xfff8000000000000ull, w), Z3_mk_bvor(C, Z3_mk_bvand(C, core, Z3_mk_bvnot(C, sgn)), sign));
  } else {
    Z3_ast rne = Z3_mk_fpa_rne(C), fx = asF(V(x, ab), w), fy = asF(V(y, ab), w);
    core = fres(e->op == K::FADD ? Z3_mk_fpa_add(C, rne, fx, fy) : e->op == K::FMUL ? Z3_mk_fpa_mul(C, rne, fx, fy) : e->op == K::FSUB ? Z3_mk_fpa_sub(C, rne, fx, fy) : Z3_mk_fpa_div(C, rne, fx, fy), w);
  }
  return Z3_mk_ite(C, nanBits(a, w), quiet(a, w), Z3_mk_ite(C, nanBits(b, w), quiet(b, w), core));
}
static Z3_ast fpOp(E e, int ab) {
  if (comm(e)) return commOp(e, ab);
  unsigned w = e->width, w0 = e->ch[0]->width; Z3_ast rne = Z3_mk_fpa_rne(C), rtz = Z3_mk_fpa_rtz(C);
  Z3_ast a = V(e->ch[0], ab), b = e->nch > 1 ? V(e->ch[1], ab) : nullptr, c = e->nch > 2 ? V(e->ch[2], ab) : nullptr;
  Z3_ast fa = nullptr; if (e->op != K::SITOFP && e->op != K::UITOFP) fa = asF(a, w0);
  auto guardNan = [&](Z3_ast x, unsigned xw, Z3_ast r) { return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, asF(x, xw)), quiet(x, xw), r); };
  switch (e->op) {
    case K::FREM: { // the remainder of a truncating division, exact; z3 has the one of a rounding division
      E y = e->ch[1]; bool two = y->op == K::CONST && y->val == (w == 32 ? 0x40000000u : 0x4000000000000000ull); Z3_ast fb = asF(b, w), r;
      Z3_ast sgn = Z3_mk_bvand(C, a, num((u128)1 << (w - 1), w));
      if (two) { Z3_ast h = Z3_mk_fpa_mul(C, rne, fa, Z3_mk_fpa_numeral_double(C, 0.5, FS(w))), t = Z3_mk_fpa_mul(C, rne, Z3_mk_fpa_round_to_integral(C, rtz, h), fb); r = Z3_mk_fpa_sub(C, rne, fa, t); }
      else { Z3_ast x = Z3_mk_fpa_abs(C, fa), d = Z3_mk_fpa_abs(C, fb), q = Z3_mk_fpa_rem(C, x, d); r = Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, q), Z3_mk_fpa_add(C, rne, q, d), q); r = Z3_mk_ite(C, Z3_mk_eq(C, sgn, num(0, w)), r, Z3_mk_fpa_neg(C, r)); }
      Z3_ast bits = Z3_mk_ite(C, Z3_mk_fpa_is_zero(C, r), sgn, fres(r, w)); return guardNan(a, w, guardNan(b, w, bits)); }
    case K::FSQRT: return guardNan(a, w, fres(Z3_mk_fpa_sqrt(C, rne, fa), w));
    case K::FMA: return guardNan(a, w, guardNan(b, w, guardNan(c, w, fres(Z3_mk_fpa_fma(C, rne, fa, asF(b, w), asF(c, w)), w))));
    case K::FROUND: { Z3_ast rm = e->aux == 0 ? rne : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtn(C) : e->aux == 3 ? rtz : Z3_mk_fpa_rna(C); return guardNan(a, w, fres(Z3_mk_fpa_round_to_integral(C, rm, fa), w)); }
    case K::FPEXT: { Z3_ast r = Z3_mk_fpa_to_fp_float(C, rne, fa, FS(64)); Z3_ast nan = Z3_mk_concat(C, Z3_mk_extract(C, 31, 31, a), Z3_mk_concat(C, num(0xfff, 12), Z3_mk_concat(C, Z3_mk_extract(C, 21, 0, a), num(0, 29)))); return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, fa), nan, Z3_mk_fpa_to_ieee_bv(C, r)); }
    case K::FPTRUNC: { Z3_ast r = Z3_mk_fpa_to_fp_float(C, rne, fa, FS(32)); Z3_ast nan = Z3_mk_concat(C, Z3_mk_extract(C, 63, 63, a), Z3_mk_concat(C, num(0x1ff, 9), Z3_mk_extract(C, 50, 29, a))); return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, fa), nan, Z3_mk_fpa_to_ieee_bv(C, r)); }
    case K::FPTOSI: case K::FPTOSISAT: case K::FPTOUI: case K::FPTOUISAT: {
      bool sg = e->op == K::FPTOSI || e->op == K::FPTOSISAT;
      double hi = ldexp(1.0, sg ? w - 1 : w), lo = sg ? -ldexp(1.0, w - 1) : 0.0;
      Z3_ast t = Z3_mk_fpa_round_to_integral(C, rtz, fa);
      Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(C, rtz, fa, w) : Z3_mk_fpa_to_ubv(C, rtz, fa, w);
      Z3_ast tooLo = Z3_mk_fpa_lt(C, t, Z3_mk_fpa_numeral_double(C, lo, FS(w0))), tooHi = Z3_mk_fpa_geq(C, t, Z3_mk_fpa_numeral_double(C, hi, FS(w0)));
      return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, fa), num(0, w), Z3_mk_ite(C, tooLo, num(sg ? (u128)1 << (w - 1) : 0, w), Z3_mk_ite(C, tooHi, num(sg ? maskw(w - 1) : maskw(w), w), conv)));
    }
    case K::SITOFP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne, a, FS(w)));
    case K::UITOFP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rne, a, FS(w)));
    default: fprintf(stderr, "unsupported fp op in solver: %d\n", (int)e->op); exit(2);
  }
}
// iterative driver so that deep DAGs do not overflow the C stack
static void prep(E root, int ab) {
  std::vector<E> st{root};
  Tr& t = tr[ab];
  while (!st.empty()) {
    E e = st.back();
    auto done = [&](E x) { return t.bv.count(x) || t.bo.count(x); };
    if (done(e)) { st.pop_back(); continue; }
    bool ready = true;
    if (!(ab && hard(e) && !comm(e)) && e->op != K::CONST) for (int i = 0; i < e->nch; i++) if (!done(e->ch[i])) { st.push_back(e->ch[i]); ready = false; }
    if (!ready) continue;
    if (e->width == 1) B(e, ab); else V(e, ab);
    st.pop_back();
  }
}
static Z3_ast B(E e, int ab) {
  Tr& t = tr[ab]; auto it = t.bo.find(e); if (it != t.bo.end()) return it->second;
  Z3_ast r; nodesTranslated++;
  switch (e->op) {
    case K::CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::EQ: if (e->ch[0]->width == 1) r = Z3_mk_iff(C, B(e->ch[0], ab), B(e->ch[1], ab)); else r = Z3_mk_eq(C, V(e->ch[0], ab), V(e->ch[1], ab)); break;
    case K::ULT: r = Z3_mk_bvult(C, V(e->ch[0], ab), V(e->ch[1], ab)); break;
    case K::ULE: r = Z3_mk_bvule(C, V(e->ch[0], ab), V(e->ch[1], ab)); break;
    case K::SLT: r = Z3_mk_bvslt(C, V(e->ch[0], ab), V(e->ch[1], ab)); break;
    case K::SLE: r = Z3_mk_bvsle(C, V(e->ch[0], ab), V(e->ch[1], ab)); break;
    case K::AND: { Z3_ast a[2] = {B(e->ch[0], ab), B(e->ch[1], ab)}; r = Z3_mk_and(C, 2, a); break; }
    case K::OR: { Z3_ast a[2] = {B(e->ch[0], ab), B(e->ch[1], ab)}; r = Z3_mk_or(C, 2, a); break; }
    case K::XOR: if (isTrue(e->ch[1])) r = Z3_mk_not(C, B(e->ch[0], ab)); else r = Z3_mk_xor(C, B(e->ch[0], ab), B(e->ch[1], ab)); break;
    case K::ITE: r = Z3_mk_ite(C, B(e->ch[0], ab), B(e->ch[1], ab), B(e->ch[2], ab)); break;
    default: r = Z3_mk_eq(C, V(e, ab), num(1, 1)); break;
  }
  Z3_inc_ref(C, r); t.bo[e] = r; return r;
}
static Z3_ast V(E e, int ab) {
  Tr& t = tr[ab]; auto it = t.bv.find(e); if (it != t.bv.end()) return it->second;
  Z3_ast r; unsigned w = e->width; nodesTranslated++;
  auto c = [&](int i) { return V(e->ch[i], ab); };
  if (ab && hard(e) && !comm(e)) { char n[32]; snprintf(n, 32, "hard!%u", e->id); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), S(w)); }
  else switch (e->op) {
    case K::CONST: r = num(e->val, w); break;
    case K::VAR: { char n[32]; snprintf(n, 32, "v%u", e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), S(w)); break; }
    case K::ADD: r = Z3_mk_bvadd(C, c(0), c(1)); break; case K::SUB: r = Z3_mk_bvsub(C, c(0), c(1)); break;
    case K::MUL: r = Z3_mk_bvmul(C, c(0), c(1)); break; case K::UDIV: r = Z3_mk_bvudiv(C, c(0), c(1)); break;
    case K::SDIV: r = Z3_mk_bvsdiv(C, c(0), c(1)); break; case K::UREM: r = Z3_mk_bvurem(C, c(0), c(1)); break;
    case K::SREM: r = Z3_mk_bvsrem(C, c(0), c(1)); break; case K::SHL: r = Z3_mk_bvshl(C, c(0), c(1)); break;
    case K::LSHR: r = Z3_mk_bvlshr(C, c(0), c(1)); break; case K::ASHR: r = Z3_mk_bvashr(C, c(0), c(1)); break;
    case K::CONCAT: r = Z3_mk_concat(C, c(0), c(1)); break;
    case K::EXTRACT: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, c(0)); break;
    case K::ZEXT: r = Z3_mk_zero_ext(C, w - e->ch[0]->width, c(0)); break;
    case K::SEXT: r = Z3_mk_sign_ext(C, w - e->ch[0]->width, c(0)); break;
    case K::AND: if (w == 1) { r = b2v(B(e, ab)); break; } r = Z3_mk_bvand(C, c(0), c(1)); break;
    case K::OR: if (w == 1) { r = b2v(B(e, ab)); break; } r = Z3_mk_bvor(C, c(0), c(1)); break;
    case K::XOR: if (w == 1) { r = b2v(B(e, ab)); break; } if (isC(e->ch[1]) && e->ch[1]->val == maskw(w)) r = Z3_mk_bvnot(C, c(0)); else r = Z3_mk_bvxor(C, c(0), c(1)); break;
    case K::ITE: r = Z3_mk_ite(C, B(e->ch[0], ab), c(1), c(2)); break;
    case K::EQ: case K::ULT: case K::ULE: case K::SLT: case K::SLE: r = b2v(B(e, ab)); break;
    default: r = fpOp(e, ab); break;
  }
  Z3_inc_ref(C, r); t.bv[e] = r; return r;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void collectVars(E e, std::unordered_set<E>& seen, std::vector<E>& vars) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == K::CONST || !seen.insert(x).second) continue; if (x->op == K::VAR) vars.push_back(x); else for (int i = 0; i < x->nch; i++) st.push_back(x->ch[i]); }
}
static Res z3check(const std::vector<E>& cs, int ab, unsigned timeout, Model* out, const std::vector<E>& vars) {
  initCtx();
  for (E e : cs) prep(e, ab);
  static Z3_symbol sTimeout = nullptr; sTimeout = Z3_mk_string_symbol(C, "timeout");
  bool fp = false, uf = false; { std::unordered_set<E> seen; for (E e : cs) if (ab ? containsComm(e, seen) : containsHard(e, seen)) { fp = true; break; } } if (ab) std::swap(fp, uf);
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, uf ? "QF_UFBV" : fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, sTimeout, timeout); Z3_solver_set_params(C, s, p);
  for (E e : cs) Z3_solver_assert(C, s, B(e, ab));
  alarm(gQueryTimeoutMs / 1000 + 20); // a solver that does not heed its time limit
  Z3_lbool r = Z3_solver_check(C, s); alarm(0);
  if (r == Z3_L_TRUE && out) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (E v : vars) {
      if (v->width <= 64) { Z3_ast val = nullptr; u64 x = 0; if (Z3_model_eval(C, m, V(v, ab), true, &val)) Z3_get_numeral_uint64(C, val, &x); out->set(v->aux, x); }
      else { Z3_ast val = nullptr; u64 lo = 0, hi = 0; Z3_model_eval(C, m, Z3_mk_extract(C, 63, 0, V(v, ab)), true, &val); Z3_get_numeral_uint64(C, val, &lo);
        Z3_model_eval(C, m, Z3_mk_extract(C, v->width - 1, 64, V(v, ab)), true, &val); Z3_get_numeral_uint64(C, val, &hi); out->set(v->aux, (u128)hi << 64 | lo); }
    }
    Z3_model_dec_ref(C, m);
  }
  Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
  if (nodesTranslated > 3000000) { // bound z3 memory
    Z3_del_context(C); C = nullptr; tr[0] = Tr(); tr[1] = Tr(); nodesTranslated = 0;
  }
  return r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
}
std::string toSmt2(const std::vector<E>& cs) {
  initCtx(); Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); for (E e : cs) { prep(e, 0); Z3_solver_assert(C, s, B(e, 0)); }
  std::string r = Z3_solver_to_string(C, s); Z3_solver_dec_ref(C, s); return r;
}
// external portfolio: hand the query to cvc5 when z3 gives up
static Res external(const std::vector<E>& cs, unsigned timeoutMs) {
  char fn[128]; snprintf(fn, sizeof fn, "/tmp/symx-q-%d-%llu.smt2", (int)getpid(), (unsigned long long)sstats.queries);
  FILE* f = fopen(fn, "w"); if (!f) return Res::UNKNOWN; std::string b = toSmt2(cs); fprintf(f, "(set-logic QF_BVFP)\n%s\n(check-sat)\n", b.c_str()); fclose(f);
  char cmd[300]; snprintf(cmd, sizeof cmd, "timeout %u cvc5 --tlimit=%u --lang=smt2 %s 2>&1", timeoutMs / 1000 + 2, timeoutMs, fn);
  Res r = Res::UNKNOWN; FILE* p = popen(cmd, "r"); if (p) { char line[256]; if (fgets(line, sizeof line, p)) { if (!strncmp(line, "unsat", 5)) r = Res::UNSAT; } pclose(p); }
  remove(fn); return r;
}
Res solve(const std::vector<E>& pc, E q, const Model& base, Model* out) {
  if (isFalse(q)) return Res::UNSAT;
  // implied syntactically?
  E nq = mkNot(q);
  for (E e : pc) { if (e == nq) return Res::UNSAT; }
  if (evalExpr(q, base) == 1) { sstats.modelHits++; if (out) *out = base; return Res::SAT; }
  // slice: constraints transitively sharing variables with q
  std::vector<E> cs{q}; u64 vs = q->vars; std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (pc[i]->vars & vs)) { used[i] = 1; cs.push_back(pc[i]); if (pc[i]->vars & ~vs) { vs |= pc[i]->vars; ch = true; } } }
  std::vector<u32> key; for (E e : cs) key.push_back(e->id); std::sort(key.begin() + 1, key.end());
  u64 h = 1469598103934665603ull; for (u32 k : key) { h = (h ^ k) * 1099511628211ull; h ^= h >> 31; }
  auto merge = [&](const Model& m, const std::vector<E>& vars) { if (!out) return; Model r = base; for (E v : vars) r.set(v->aux, m.get(v->aux)); *out = r; };
  std::vector<E> vars; { std::unordered_set<E> seen; for (E e : cs) collectVars(e, seen, vars); }
  auto it = qcache.find(h);
  if (it != qcache.end()) for (auto& p : it->second) if (p.first == key) { sstats.cacheHits++; if (p.second.first == Res::SAT) merge(p.second.second, vars); return p.second.first; }
  double t0 = now(); Model m; Res r = Res::UNKNOWN; bool hardAny = false;
  { std::unordered_set<E> seen; for (E e : cs) if (containsHard(e, seen)) { hardAny = true; break; } }
  if (hardAny) { Model ma; Res ra = z3check(cs, 1, std::min(gQueryTimeoutMs, 20000u), &ma, vars);
    if (ra == Res::UNSAT) { r = ra; sstats.abstractUnsat++; }
    else if (ra == Res::SAT) { // the abstract model may already be a real one
      bool ok = true; newEvalStamp(); for (E e : cs) if (evalExprStamped(e, ma) != 1) { ok = false; break; }
      if (ok) { r = Res::SAT; m = ma; } } }
  if (r == Res::UNKNOWN) { r = z3check(cs, 0, gQueryTimeoutMs, &m, vars); if (r == Res::UNKNOWN) r = external(cs, gQueryTimeoutMs); }
  if (r == Res::SAT) { newEvalStamp(); for (E e : cs) if (evalExprStamped(e, m) != 1) { fprintf(stderr, "symx: solver model does not satisfy %s\n", exprStr(e, 8).c_str()); r = Res::UNKNOWN; break; } }
  double dt = now() - t0; sstats.queries++; sstats.time += dt; if (dt > sstats.maxTime) sstats.maxTime = dt;
  if (dt > 5 && getenv("SYMX_SLOW")) fprintf(stderr, "slow query %.1fs res=%d n=%zu q=%s\n", dt, (int)r, cs.size(), exprStr(q, 7).c_str());
  if (r == Res::SAT) sstats.sat++; else if (r == Res::UNSAT) sstats.unsat++; else sstats.unknown++;
  if (!gDumpDir.empty() && r != Res::UNKNOWN) { char fn[300]; snprintf(fn, sizeof fn, "%s/q%d-%llu.%s.smt2", gDumpDir.c_str(), (int)getpid(), (unsigned long long)sstats.queries, r == Res::SAT ? "sat" : "unsat"); if (FILE* f = fopen(fn, "w")) { fprintf(f, "%s\n(check-sat)\n", toSmt2(cs).c_str()); fclose(f); } }
  qcache[h].push_back({key, {r, m}});
  if (r == Res::SAT) merge(m, vars);
  return r;
}
