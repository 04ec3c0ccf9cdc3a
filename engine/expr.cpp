#include "expr.hpp"
#include <fenv.h>
#pragma STDC FENV_ACCESS ON
ExprPool pool; std::vector<VarInfo> gVars;
static u32 gStamp = 0;

static E mkN(K op, unsigned w, u32 aux, int n, E a, E b = nullptr, E c = nullptr) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.width = w; t.aux = aux; t.nch = n; t.ch[0] = a; t.ch[1] = b; t.ch[2] = c; return pool.intern(t);
}
E mkConst(u128 v, unsigned w) { if (w > 128) { fprintf(stderr, "const too wide\n"); exit(2); } Expr t; memset(&t, 0, sizeof t); t.op = K::CONST; t.width = w; t.val = v & maskw(w); return pool.intern(t); }
E mkVar(const std::string& name, unsigned w) {
  Expr t; memset(&t, 0, sizeof t); t.op = K::VAR; t.width = w; t.aux = gVars.size(); E e = pool.intern(t); gVars.push_back({name, w, e}); return e;
}
// ---- concrete float helpers (x86 SSE semantics for NaN results) ----
static float b2f(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double b2d(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static u128 f2b(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u128 d2b(double f) { u64 x; memcpy(&x, &f, 8); return x; }
static bool nan32(u128 v) { return (v & 0x7fffffff) > 0x7f800000; }
static bool nan64(u128 v) { return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static u128 q32(u128 v) { return v | 0x00400000; }
static u128 q64(u128 v) { return v | 0x0008000000000000ull; }
template <class F> static F rnd(F x, unsigned mode) {
  switch (mode) { case 1: return std::ceil(x); case 2: return std::floor(x); case 3: return std::trunc(x); case 4: return std::round(x); default: return std::nearbyint(x); }
}
u128 applyOp(K op, unsigned w, unsigned aux, const u128* v, const unsigned* ws) {
  u128 m = maskw(w), a = v[0], b = v[1];
  switch (op) {
    case K::ADD: return (a + b) & m; case K::SUB: return (a - b) & m; case K::MUL: return (a * b) & m;
    case K::UDIV: return b ? a / b : m; case K::UREM: return b ? a % b : a;
    case K::SDIV: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case K::SREM: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K::SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K::ASHR: { i128 x = sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K::AND: return a & b; case K::OR: return a | b; case K::XOR: return a ^ b;
    case K::CONCAT: return (a << ws[1]) | b;
    case K::EXTRACT: return (a >> aux) & m;
    case K::ZEXT: return a; case K::SEXT: return (u128)sextv(a, ws[0]) & m;
    case K::ITE: return a ? b : v[2];
    case K::EQ: return a == b; case K::ULT: return a < b; case K::ULE: return a <= b;
    case K::SLT: return sextv(a, ws[0]) < sextv(b, ws[0]); case K::SLE: return sextv(a, ws[0]) <= sextv(b, ws[0]);
    case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: case K::FREM:
      if (w == 32) {
        if (nan32(a)) return q32(a); if (nan32(b)) return q32(b);
        float x = b2f(a), y = b2f(b), r = op == K::FADD ? x + y : op == K::FSUB ? x - y : op == K::FMUL ? x * y : op == K::FDIV ? x / y : fmodf(x, y);
        u128 rb = f2b(r); return nan32(rb) ? 0xffc00000u : rb;
      } else {
        if (nan64(a)) return q64(a); if (nan64(b)) return q64(b);
        double x = b2d(a), y = b2d(b), r = op == K::FADD ? x + y : op == K::FSUB ? x - y : op == K::FMUL ? x * y : op == K::FDIV ? x / y : fmod(x, y);
        u128 rb = d2b(r); return nan64(rb) ? 0xfff8000000000000ull : rb;
      }
    case K::FSQRT: if (w == 32) { if (nan32(a)) return q32(a); u128 r = f2b(sqrtf(b2f(a))); return nan32(r) ? 0xffc00000u : r; }
      else { if (nan64(a)) return q64(a); u128 r = d2b(sqrt(b2d(a))); return nan64(r) ? 0xfff8000000000000ull : r; }
    case K::FMA: if (w == 32) { for (int i = 0; i < 3; i++) if (nan32(v[i])) return q32(v[i]); u128 r = f2b(fmaf(b2f(a), b2f(b), b2f(v[2]))); return nan32(r) ? 0xffc00000u : r; }
      else { for (int i = 0; i < 3; i++) if (nan64(v[i])) return q64(v[i]); u128 r = d2b(fma(b2d(a), b2d(b), b2d(v[2]))); return nan64(r) ? 0xfff8000000000000ull : r; }
    case K::FROUND: if (w == 32) { if (nan32(a)) return q32(a); return f2b(rnd(b2f(a), aux)); } else { if (nan64(a)) return q64(a); return d2b(rnd(b2d(a), aux)); }
    case K::FPEXT: if (nan32(a)) { u64 s = (u64)(a >> 31) << 63; return s | 0x7ff8000000000000ull | ((u64)(a & 0x3fffff) << 29); } return d2b((double)b2f(a));
    case K::FPTRUNC: if (nan64(a)) { u32 s = (u32)(a >> 63) << 31; return s | 0x7fc00000u | (u32)((a >> 29) & 0x3fffff); } return f2b((float)b2d(a));
    case K::FPTOSI: case K::FPTOUI: case K::FPTOSISAT: case K::FPTOUISAT: {
      bool isNan = ws[0] == 32 ? nan32(a) : nan64(a); double d = ws[0] == 32 ? (double)b2f(a) : b2d(a);
      if (isNan) return 0;
      d = std::trunc(d);
      bool sg = op == K::FPTOSI || op == K::FPTOSISAT;
      double hi = ldexp(1.0, sg ? w - 1 : w), lo = sg ? -ldexp(1.0, w - 1) : 0.0;
      if (d < lo) return sg ? (u128)1 << (w - 1) : 0;
      if (d >= hi) return sg ? maskw(w - 1) : m;
      return sg ? (u128)(i128)d & m : (u128)d & m;
    }
    case K::SITOFP: { i128 x = sextv(a, ws[0]); return w == 32 ? f2b((float)x) : d2b((double)x); }
    case K::UITOFP: return w == 32 ? f2b((float)a) : d2b((double)a);
    default: fprintf(stderr, "applyOp %d\n", (int)op); exit(2);
  }
}
static E foldN(K op, unsigned w, u32 aux, int n, E a, E b = nullptr, E c = nullptr) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) {
    u128 v[3] = {a->val, b ? b->val : 0, c ? c->val : 0}; unsigned ws[3] = {a->width, b ? b->width : 0u, c ? c->width : 0u};
    return mkConst(applyOp(op, w, aux, v, ws), w);
  }
  return mkN(op, w, aux, n, a, b, c);
}
unsigned trailingZeros(E e) {
  switch (e->op) {
    case K::CONST: { if (!e->val) return e->width; unsigned n = 0; u128 v = e->val; while (!(v & 1)) { v >>= 1; n++; } return n; }
    case K::CONCAT: { unsigned t = trailingZeros(e->ch[1]); return t < e->ch[1]->width ? t : t + trailingZeros(e->ch[0]); }
    case K::ZEXT: case K::SEXT: { unsigned t = trailingZeros(e->ch[0]); return t < e->ch[0]->width ? t : e->width; }
    case K::ADD: case K::SUB: case K::OR: case K::XOR: { unsigned a = trailingZeros(e->ch[0]), b = trailingZeros(e->ch[1]); return a < b ? a : b; }
    case K::AND: { unsigned a = trailingZeros(e->ch[0]), b = trailingZeros(e->ch[1]); return a > b ? a : b; }
    case K::MUL: { unsigned a = trailingZeros(e->ch[0]) + trailingZeros(e->ch[1]); return a < e->width ? a : e->width; }
    case K::ITE: { unsigned a = trailingZeros(e->ch[1]), b = trailingZeros(e->ch[2]); return a < b ? a : b; }
    default: return 0;
  }
}
unsigned leadingZeros(E e) {
  switch (e->op) {
    case K::CONST: { unsigned n = 0; for (int i = e->width - 1; i >= 0; i--) { if ((e->val >> i) & 1) break; n++; } return n; }
    case K::CONCAT: { unsigned t = leadingZeros(e->ch[0]); return t < e->ch[0]->width ? t : t + leadingZeros(e->ch[1]); }
    case K::ZEXT: return e->width - e->ch[0]->width + leadingZeros(e->ch[0]);
    case K::AND: { unsigned a = leadingZeros(e->ch[0]), b = leadingZeros(e->ch[1]); return a > b ? a : b; }
    case K::OR: case K::XOR: { unsigned a = leadingZeros(e->ch[0]), b = leadingZeros(e->ch[1]); return a < b ? a : b; }
    case K::ITE: { unsigned a = leadingZeros(e->ch[1]), b = leadingZeros(e->ch[2]); return a < b ? a : b; }
    case K::UDIV: case K::LSHR: return leadingZeros(e->ch[0]);
    case K::UREM: { unsigned a = leadingZeros(e->ch[0]); return a; }
    case K::ADD: { unsigned a = leadingZeros(e->ch[0]), b = leadingZeros(e->ch[1]); unsigned m = a < b ? a : b; return m ? m - 1 : 0; }
    case K::MUL: { unsigned a = leadingZeros(e->ch[0]), b = leadingZeros(e->ch[1]); unsigned used = (e->width - a) + (e->width - b); return used >= e->width ? 0 : e->width - used; }
    default: return 0;
  }
}
static bool cheap(E e) { return e->op == K::CONST || e->op == K::ZEXT || e->op == K::SEXT || e->op == K::CONCAT; }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (a->op) {
    case K::CONST: return mkConst(a->val >> lo, w);
    case K::EXTRACT: return mkExtract(a->ch[0], a->aux + lo, w);
    case K::CONCAT: { unsigned lw = a->ch[1]->width;
      if (lo + w <= lw) return mkExtract(a->ch[1], lo, w);
      if (lo >= lw) return mkExtract(a->ch[0], lo - lw, w);
      return mkConcat(mkExtract(a->ch[0], 0, lo + w - lw), mkExtract(a->ch[1], lo, lw - lo)); }
    case K::ZEXT: { unsigned iw = a->ch[0]->width;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->ch[0], lo, w);
      return mkZext(mkExtract(a->ch[0], lo, iw - lo), w); }
    case K::SEXT: { unsigned iw = a->ch[0]->width;
      if (lo + w <= iw) return mkExtract(a->ch[0], lo, w);
      if (lo < iw) return mkSext(mkExtract(a->ch[0], lo, iw - lo), w);
      return mkSext(mkExtract(a->ch[0], iw - 1, 1), w); }
    case K::AND: case K::OR: case K::XOR: return mkBin(a->op, mkExtract(a->ch[0], lo, w), mkExtract(a->ch[1], lo, w));
    case K::ADD: case K::SUB: case K::MUL: if (lo == 0 && (cheap(a->ch[0]) || cheap(a->ch[1]))) return mkBin(a->op, mkExtract(a->ch[0], 0, w), mkExtract(a->ch[1], 0, w)); break;
    case K::ITE: if ((isC(a->ch[1]) || isC(a->ch[2])) && (cheap(a->ch[1]) && cheap(a->ch[2]))) return mkIte(a->ch[0], mkExtract(a->ch[1], lo, w), mkExtract(a->ch[2], lo, w)); break;
    default: break;
  }
  return mkN(K::EXTRACT, w, lo, 1, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == K::CONCAT) return mkConcat(hi->ch[0], mkConcat(hi->ch[1], lo));
  if (hi->op == K::ZEXT) return mkZext(mkConcat(hi->ch[0], lo), w);
  auto adj = [](E h, E l) -> E {
    if (h->op == K::EXTRACT) {
      if (l->op == K::EXTRACT && l->ch[0] == h->ch[0] && l->aux + l->width == h->aux) return mkExtract(h->ch[0], l->aux, h->width + l->width);
      if (l == h->ch[0] && h->aux == l->width) return nullptr;
    }
    // x[hi part] where low part is the low extract of the same base handled above; base-sized low handled by sext below
    if (h->op == K::SEXT && h->ch[0]->width == 1 && h->ch[0]->op == K::EXTRACT) {
      E t = h->ch[0];
      if (l->op == K::EXTRACT && l->ch[0] == t->ch[0] && l->aux + l->width == t->aux + 1) return mkSext(l, h->width + l->width);
      if (t->ch[0] == l && t->aux + 1 == l->width) return mkSext(l, h->width + l->width);
    }
    if (h->op == K::EXTRACT && h->width == 1) {
      if (l->op == K::EXTRACT && l->ch[0] == h->ch[0] && l->aux + l->width == h->aux + 1) return nullptr;
    }
    if (h->op == K::SEXT && l->op == K::EXTRACT && h->ch[0]->op == K::EXTRACT && h->ch[0]->ch[0] == l->ch[0] && l->aux + l->width == h->ch[0]->aux)
      return mkSext(mkExtract(l->ch[0], l->aux, l->width + h->ch[0]->width), h->width + l->width);
    if (h->op == K::ITE && l->op == K::ITE && h->ch[0] == l->ch[0] && isC(h->ch[1]) + isC(h->ch[2]) + isC(l->ch[1]) + isC(l->ch[2]) >= 2)
      return mkIte(h->ch[0], mkConcat(h->ch[1], l->ch[1]), mkConcat(h->ch[2], l->ch[2]));
    if (isC(h) && isC(l)) return mkConcat(h, l);
    return nullptr;
  };
  if (E r = adj(hi, lo)) return r;
  if (lo->op == K::CONCAT) { if (E r = adj(hi, lo->ch[0])) return mkConcat(r, lo->ch[1]); }
  if (lo->op == K::ZEXT) { // 0-part of lo adjoining hi const
    if (isC(hi)) { unsigned zw = lo->width - lo->ch[0]->width; return mkConcat(mkConst(hi->val << zw, hi->width + zw), lo->ch[0]); }
  }
  if (w > 128) { fprintf(stderr, "concat too wide %u\n", w); exit(2); }
  return mkN(K::CONCAT, w, 0, 2, hi, lo);
}
E mkZext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == K::ZEXT) return mkZext(a->ch[0], w);
  if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkConst(a->ch[1]->val, w), mkConst(a->ch[2]->val, w));
  return mkN(K::ZEXT, w, 0, 1, a);
}
E mkSext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst((u128)sextv(a->val, a->width), w);
  if (a->op == K::SEXT) return mkSext(a->ch[0], w);
  if (a->op == K::ZEXT) return mkZext(a->ch[0], w);
  if (a->op == K::CONCAT && a->ch[0]->op == K::CONST && leadingZeros(a->ch[0])) return mkZext(a, w);
  if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkSext(a->ch[1], w), mkSext(a->ch[2], w));
  return mkN(K::SEXT, w, 0, 1, a);
}
E mkNot(E a) { return mkBin(K::XOR, a, mkConst(1, 1)); }
E mkAnd1(E a, E b) { return mkBin(K::AND, a, b); }
E mkOr1(E a, E b) { return mkBin(K::OR, a, b); }
static bool isNot(E e) { return e->op == K::XOR && e->width == 1 && isTrue(e->ch[1]); }
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->ch[0], b, a);
  if (a->width == 1) {
    if (isC(a)) return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
    if (a == c) return mkOr1(c, b);
    if (b == c) return mkAnd1(c, a);
  }
  if (a->op == K::ITE && a->ch[0] == c) return mkIte(c, a->ch[1], b);
  if (b->op == K::ITE && b->ch[0] == c) return mkIte(c, a, b->ch[2]);
  if (b->op == K::ITE && b->ch[1] == a) return mkIte(mkOr1(c, b->ch[0]), a, b->ch[2]);
  if (a->op == K::ZEXT && b->op == K::ZEXT && a->ch[0]->width == b->ch[0]->width) return mkZext(mkIte(c, a->ch[0], b->ch[0]), a->width);
  if (a->op == K::SEXT && b->op == K::SEXT && a->ch[0]->width == b->ch[0]->width) return mkSext(mkIte(c, a->ch[0], b->ch[0]), a->width);
  // ite(x==k, k, x) -> x
  if (c->op == K::EQ && ((c->ch[0] == a && c->ch[1] == b) || (c->ch[0] == b && c->ch[1] == a))) return b;
  return mkN(K::ITE, a->width, 0, 3, c, a, b);
}
E mkEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->val == b->val, 1);
  if (isC(a)) std::swap(a, b);
  if (a->width == 1) { if (isC(b)) return b->val ? a : mkNot(a); return mkNot(mkBin(K::XOR, a, b)); }
  if (isC(b)) {
    switch (a->op) {
      case K::ZEXT: if (b->val >> a->ch[0]->width) return mkConst(0, 1); return mkEq(a->ch[0], mkConst(b->val, a->ch[0]->width));
      case K::SEXT: { E t = mkConst(b->val, a->ch[0]->width); if (((u128)sextv(t->val, t->width) & maskw(a->width)) != b->val) return mkConst(0, 1); return mkEq(a->ch[0], t); }
      case K::CONCAT: return mkAnd1(mkEq(a->ch[0], mkConst(b->val >> a->ch[1]->width, a->ch[0]->width)), mkEq(a->ch[1], mkConst(b->val, a->ch[1]->width)));
      case K::ITE: if (isC(a->ch[1]) || isC(a->ch[2])) return mkIte(a->ch[0], mkEq(a->ch[1], b), mkEq(a->ch[2], b)); break;
      case K::XOR: if (isC(a->ch[1])) return mkEq(a->ch[0], mkConst(b->val ^ a->ch[1]->val, a->width)); break;
      case K::ADD: if (isC(a->ch[1])) return mkEq(a->ch[0], mkConst(b->val - a->ch[1]->val, a->width)); break;
      case K::SUB: if (isC(a->ch[0])) return mkEq(a->ch[1], mkConst(a->ch[0]->val - b->val, a->width)); if (b->val == 0) return mkEq(a->ch[0], a->ch[1]); break;
      default: break;
    }
    unsigned lz = leadingZeros(a);
    if (lz < 128 && lz > 0 && (b->val >> (a->width - lz))) return mkConst(0, 1);
  } else {
    if (a->op == K::ZEXT && b->op == K::ZEXT) { unsigned w = std::max(a->ch[0]->width, b->ch[0]->width); if (w < a->width) return mkEq(mkZext(a->ch[0], w), mkZext(b->ch[0], w)); }
    if (a->op == K::SEXT && b->op == K::SEXT && a->ch[0]->width == b->ch[0]->width) return mkEq(a->ch[0], b->ch[0]);
    if (a->op == K::CONCAT && b->op == K::CONCAT && a->ch[1]->width == b->ch[1]->width) return mkAnd1(mkEq(a->ch[0], b->ch[0]), mkEq(a->ch[1], b->ch[1]));
    if (a->op == K::ADD && b->op == K::ADD && isC(a->ch[1]) && a->ch[1] == b->ch[1]) return mkEq(a->ch[0], b->ch[0]);
    if (a->op == K::ITE && b->op == K::ITE && a->ch[0] == b->ch[0]) return mkIte(a->ch[0], mkEq(a->ch[1], b->ch[1]), mkEq(a->ch[2], b->ch[2]));
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mkN(K::EQ, 1, 0, 2, a, b);
}
E mkUlt(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(a->val < b->val, 1);
  if (a == b) return mkConst(0, 1);
  if (isC(b) && b->val == 0) return mkConst(0, 1);
  if (isC(a) && a->val == maskw(w)) return mkConst(0, 1);
  if (isC(b) && b->val == 1) return mkEq(a, mkConst(0, w));
  if (isC(a) && a->val == 0) return mkNot(mkEq(b, a));
  if (w == 1) return mkAnd1(mkNot(a), b);
  unsigned la = leadingZeros(a), lb = leadingZeros(b), l = std::min(la, lb);
  if (l == w) l = w - 1;
  if (isC(b) && la && la <= w && la < 128 && b->val > maskw(w - la)) return mkConst(1, 1);
  if (isC(a) && lb && lb <= w && a->val >= maskw(w - lb)) return mkConst(0, 1);
  if (l > 0) return mkUlt(mkExtract(a, 0, w - l), mkExtract(b, 0, w - l));
  if (isC(b) && a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkUlt(a->ch[1], b), mkUlt(a->ch[2], b));
  if (isC(a) && b->op == K::ITE && isC(b->ch[1]) && isC(b->ch[2])) return mkIte(b->ch[0], mkUlt(a, b->ch[1]), mkUlt(a, b->ch[2]));
  if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned k = trailingZeros(b); return mkEq(mkExtract(a, k, w - k), mkConst(0, w - k)); }
  return mkN(K::ULT, 1, 0, 2, a, b);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSlt(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(sextv(a->val, w) < sextv(b->val, w), 1);
  if (a == b) return mkConst(0, 1);
  if (w == 1) return mkAnd1(a, mkNot(b));
  if (isC(b) && b->val == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->val == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  if (leadingZeros(a) && leadingZeros(b)) return mkUlt(a, b);
  if (a->op == K::SEXT && b->op == K::SEXT && a->ch[0]->width == b->ch[0]->width) return mkSlt(a->ch[0], b->ch[0]);
  if (a->op == K::SEXT && isC(b)) { unsigned iw = a->ch[0]->width; i128 k = sextv(b->val, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
    if (k > hi) return mkConst(1, 1); if (k <= lo) return mkConst(0, 1); return mkSlt(a->ch[0], mkConst((u128)k, iw)); }
  if (b->op == K::SEXT && isC(a)) { unsigned iw = b->ch[0]->width; i128 k = sextv(a->val, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
    if (k >= hi) return mkConst(0, 1); if (k < lo) return mkConst(1, 1); return mkSlt(mkConst((u128)k, iw), b->ch[0]); }
  if (isC(b) && a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkSlt(a->ch[1], b), mkSlt(a->ch[2], b));
  if (isC(b) && leadingZeros(a) && (b->val >> (w - 1))) return mkConst(0, 1);
  if (isC(a) && leadingZeros(b) && (a->val >> (w - 1))) return mkConst(1, 1);
  return mkN(K::SLT, 1, 0, 2, a, b);
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static bool contains1(E conj, E x, K op, int depth = 6) { if (conj == x) return true; if (depth && conj->op == op && conj->width == 1) return contains1(conj->ch[0], x, op, depth - 1) || contains1(conj->ch[1], x, op, depth - 1); return false; }
E mkBin(K op, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d %u %u\n", (int)op, a->width, b->width); abort(); }
  if (isC(a) && isC(b)) return foldN(op, w, 0, 2, a, b);
  bool comm = op == K::ADD || op == K::MUL || op == K::AND || op == K::OR || op == K::XOR;
  if (comm && isC(a)) std::swap(a, b);
  u128 ones = maskw(w);
  switch (op) {
    case K::ADD:
      if (isC(b)) { if (b->val == 0) return a; if (w == 1) return mkBin(K::XOR, a, b);
        if (a->op == K::ADD && isC(a->ch[1])) return mkBin(K::ADD, a->ch[0], mkConst(a->ch[1]->val + b->val, w));
        if (a->op == K::SUB && isC(a->ch[0])) return mkBin(K::SUB, mkConst(a->ch[0]->val + b->val, w), a->ch[1]);
        if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkBin(op, a->ch[1], b), mkBin(op, a->ch[2], b));
      } else {
        if (a->op == K::ADD && isC(a->ch[1])) return mkBin(K::ADD, mkBin(K::ADD, a->ch[0], b), a->ch[1]);
        if (b->op == K::ADD && isC(b->ch[1])) return mkBin(K::ADD, mkBin(K::ADD, a, b->ch[0]), b->ch[1]);
        if (a->op == K::SUB && a->ch[1] == b) return a->ch[0];
        if (b->op == K::SUB && b->ch[1] == a) return b->ch[0];
        // disjoint bits: treat as OR/concat
        unsigned ta = trailingZeros(a), tb = trailingZeros(b), la = leadingZeros(a), lb = leadingZeros(b);
        if ((ta && ta + lb >= w) || (tb && tb + la >= w)) return mkBin(K::OR, a, b);
      }
      break;
    case K::SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(K::ADD, a, mkConst(-b->val, w));
      if (a->op == K::ADD) { if (a->ch[0] == b) return a->ch[1]; if (a->ch[1] == b) return a->ch[0];
        if (isC(a->ch[1])) return mkBin(K::ADD, mkBin(K::SUB, a->ch[0], b), a->ch[1]); }
      if (b->op == K::ADD && isC(b->ch[1])) return mkBin(K::ADD, mkBin(K::SUB, a, b->ch[0]), mkConst(-b->ch[1]->val, w));
      if (b->op == K::ADD) { if (b->ch[0] == a) return mkBin(K::SUB, mkConst(0, w), b->ch[1]); if (b->ch[1] == a) return mkBin(K::SUB, mkConst(0, w), b->ch[0]); }
      if (isC(a) && b->op == K::SUB && isC(b->ch[0])) return mkBin(K::ADD, b->ch[1], mkConst(a->val - b->ch[0]->val, w));
      break;
    case K::MUL:
      if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a; if ((b->val & (b->val - 1)) == 0) return mkBin(K::SHL, a, mkConst(trailingZeros(b), w)); }
      // a product of extended values at the width it needs
      if ((a->op == K::SEXT || a->op == K::ZEXT) && (b->op == K::SEXT || b->op == K::ZEXT)) {
        bool u = a->op == K::ZEXT && b->op == K::ZEXT; unsigned n = a->ch[0]->width + b->ch[0]->width + (u ? 0 : (a->op == K::ZEXT) + (b->op == K::ZEXT));
        auto fit = [&](E x) { return x->op == K::ZEXT ? mkZext(x->ch[0], n) : mkSext(x->ch[0], n); };
        if (n < w) { E p = mkBin(K::MUL, fit(a), fit(b)); return u ? mkZext(p, w) : mkSext(p, w); }
      }
      break;
    case K::UDIV: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::LSHR, a, mkConst(trailingZeros(b), w)); break;
    case K::UREM: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::AND, a, mkConst(b->val - 1, w)); break;
    case K::SHL:
      if (isC(b)) { if (b->val >= w) return mkConst(0, w); unsigned k = (unsigned)b->val; if (!k) return a; return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k)); }
      if (isC(a) && a->val == 0) return a;
      break;
    case K::LSHR:
      if (isC(b)) { if (b->val >= w) return mkConst(0, w); unsigned k = (unsigned)b->val; if (!k) return a; return mkZext(mkExtract(a, k, w - k), w); }
      if (isC(a) && a->val == 0) return a;
      break;
    case K::ASHR:
      if (isC(b)) { unsigned k = b->val >= w ? w - 1 : (unsigned)b->val; if (!k) return a; return mkSext(mkExtract(a, k, w - k), w); }
      break;
    case K::AND:
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return b; if (b->val == ones) return a;
        if (a->op == K::AND && isC(a->ch[1])) return mkBin(K::AND, a->ch[0], mkConst(a->ch[1]->val & b->val, w));
        if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkBin(op, a->ch[1], b), mkBin(op, a->ch[2], b));
        // contiguous mask
        unsigned t = trailingZeros(b); u128 s = b->val >> t; if ((s & (s + 1)) == 0) { unsigned n = 0; while (s) { s >>= 1; n++; }
          E mid = mkExtract(a, t, n); if (t) mid = mkConcat(mid, mkConst(0, t)); return mkZext(mid, w); }
        if (a->op == K::ZEXT) { unsigned iw = a->ch[0]->width; return mkZext(mkBin(K::AND, a->ch[0], mkConst(b->val, iw)), w); }
        if (a->op == K::CONCAT) { unsigned lw = a->ch[1]->width; return mkConcat(mkBin(K::AND, a->ch[0], mkConst(b->val >> lw, w - lw)), mkBin(K::AND, a->ch[1], mkConst(b->val, lw))); }
      }
      if (w == 1) { E na = isNot(a) ? a->ch[0] : nullptr, nb = isNot(b) ? b->ch[0] : nullptr; if (na == b || nb == a) return mkConst(0, 1);
        if (contains1(a, b, K::AND)) return a; if (contains1(b, a, K::AND)) return b; }
      if (a->op == K::ZEXT && b->op == K::ZEXT && a->ch[0]->width == b->ch[0]->width) return mkZext(mkBin(op, a->ch[0], b->ch[0]), w);
      break;
    case K::OR:
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return a; if (b->val == ones) return b;
        if (a->op == K::OR && isC(a->ch[1])) return mkBin(K::OR, a->ch[0], mkConst(a->ch[1]->val | b->val, w));
        if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkBin(op, a->ch[1], b), mkBin(op, a->ch[2], b));
      }
      if (w == 1) { E na = isNot(a) ? a->ch[0] : nullptr, nb = isNot(b) ? b->ch[0] : nullptr; if (na == b || nb == a) return mkConst(1, 1);
        if (contains1(a, b, K::OR)) return a; if (contains1(b, a, K::OR)) return b; }
      else {
        for (int s = 0; s < 2; s++) { unsigned t = trailingZeros(a), l = leadingZeros(b);
          if (t > 0 && t < w && t + l >= w) return mkConcat(mkExtract(a, t, w - t), mkExtract(b, 0, t));
          std::swap(a, b); }
        if (a->op == K::ZEXT && b->op == K::ZEXT && a->ch[0]->width == b->ch[0]->width) return mkZext(mkBin(op, a->ch[0], b->ch[0]), w);
      }
      break;
    case K::XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (b->val == 0) return a;
        if (a->op == K::XOR && isC(a->ch[1])) return mkBin(K::XOR, a->ch[0], mkConst(a->ch[1]->val ^ b->val, w));
        if (a->op == K::ITE && isC(a->ch[1]) && isC(a->ch[2])) return mkIte(a->ch[0], mkBin(op, a->ch[1], b), mkBin(op, a->ch[2], b));
      }
      if (a->op == K::XOR) { if (a->ch[0] == b) return a->ch[1]; if (a->ch[1] == b) return a->ch[0]; }
      if (b->op == K::XOR) { if (b->ch[0] == a) return b->ch[1]; if (b->ch[1] == a) return b->ch[0]; }
      if (a->op == K::ZEXT && b->op == K::ZEXT && a->ch[0]->width == b->ch[0]->width) return mkZext(mkBin(op, a->ch[0], b->ch[0]), w);
      break;
    default: break;
  }
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  return mkN(op, w, 0, 2, a, b);
}
E mkF(K op, unsigned w, unsigned aux, E a, E b, E c) { return foldN(op, w, aux, c ? 3 : b ? 2 : 1, a, b, c); }

void newEvalStamp() { gStamp++; }
u128 evalExprStamped(E root, const Model& m) {
  if (root->op == K::CONST) return root->val;
  if (root->evalStamp == gStamp) return root->evalVal;
  static thread_local std::vector<E> st; size_t base = st.size(); st.push_back(root);
  while (st.size() > base) {
    E e = st.back();
    if (e->op == K::CONST || e->evalStamp == gStamp) { st.pop_back(); continue; }
    if (e->op == K::VAR) { e->evalVal = m.get(e->aux) & maskw(e->width); e->evalStamp = gStamp; st.pop_back(); continue; }
    bool ready = true;
    auto need = [&](E c) { if (c->op != K::CONST && c->evalStamp != gStamp) { st.push_back(c); ready = false; } };
    auto val = [&](E c) { return c->op == K::CONST ? c->val : c->evalVal; };
    if (e->op == K::ITE) {
      need(e->ch[0]); if (!ready) continue;
      E pick = val(e->ch[0]) ? e->ch[1] : e->ch[2]; need(pick); if (!ready) continue;
      e->evalVal = val(pick);
    } else {
      for (int i = 0; i < e->nch; i++) need(e->ch[i]);
      if (!ready) continue;
      u128 v[3] = {0, 0, 0}; unsigned ws[3] = {0, 0, 0}; for (int i = 0; i < e->nch; i++) { v[i] = val(e->ch[i]); ws[i] = e->ch[i]->width; }
      e->evalVal = applyOp(e->op, e->width, e->aux, v, ws);
    }
    e->evalStamp = gStamp; st.pop_back();
  }
  return root->evalVal;
}
u128 evalExpr(E e, const Model& m) { newEvalStamp(); return evalExprStamped(e, m); }

// ---- float predicates as pure bit-vector logic ----
static E cst(E like, u128 v) { return mkConst(v, like->width); }
static u128 expMask(unsigned w) { return w == 32 ? 0x7f800000u : 0x7ff0000000000000ull; }
E fIsNan(E a) { E mag = mkExtract(a, 0, a->width - 1); return mkUlt(mkConst(expMask(a->width), a->width - 1), mag); }
E fOeq(E a, E b) {
  E nn = mkNot(mkOr1(fIsNan(a), fIsNan(b)));
  E bothZero = mkEq(mkExtract(mkBin(K::OR, a, b), 0, a->width - 1), mkConst(0, a->width - 1));
  return mkAnd1(nn, mkOr1(mkEq(a, b), bothZero));
}
E fOlt(E a, E b) {
  unsigned w = a->width;
  E nn = mkNot(mkOr1(fIsNan(a), fIsNan(b)));
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1);
  E bothZero = mkEq(mkBin(K::OR, ma, mb), mkConst(0, w - 1));
  E lt = mkIte(sa, mkIte(sb, mkUlt(mb, ma), mkNot(bothZero)), mkIte(sb, mkConst(0, 1), mkUlt(ma, mb)));
  return mkAnd1(nn, lt);
}
E fOle(E a, E b) { return mkOr1(fOlt(a, b), fOeq(a, b)); }
E fFCmp(unsigned p, E a, E b) {
  if (p == 0) return mkConst(0, 1); if (p == 15) return mkConst(1, 1);
  if (p == 7) return mkNot(mkOr1(fIsNan(a), fIsNan(b)));
  if (p == 8) return mkOr1(fIsNan(a), fIsNan(b));
  switch (p) { // 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one ; 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
    case 1: return fOeq(a, b); case 2: return fOlt(b, a); case 3: return fOle(b, a); case 4: return fOlt(a, b); case 5: return fOle(a, b);
    case 6: return mkOr1(fOlt(a, b), fOlt(b, a));
    default: return mkNot(fFCmp(15 - p, a, b)); // unordered predicates are complements of the opposite ordered ones
  }
}
E mkCtpop(E a) { unsigned w = a->width; E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K::ADD, r, mkZext(mkExtract(a, i, 1), w)); return r; }
E mkCtlz(E a) { unsigned w = a->width; E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); return r; }
E mkCttz(E a) { unsigned w = a->width; E r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); return r; }
E mkBswap(E a) { E r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->width; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); return r; }
E mkBitrev(E a) { E r = mkExtract(a, 0, 1); for (unsigned i = 1; i < a->width; i++) r = mkConcat(r, mkExtract(a, i, 1)); return r; }
E mkFsh(bool left, E a, E b, E s) {
  unsigned w = a->width;
  E k = mkBin(K::UREM, s, mkConst(w, w));
  if (isC(k)) { unsigned n = (unsigned)k->val; if (!n) return left ? a : b;
    return left ? mkConcat(mkExtract(a, 0, w - n), mkExtract(b, w - n, n)) : mkConcat(mkExtract(a, 0, n), mkExtract(b, n, w - n)); }
  E inv = mkBin(K::SUB, mkConst(w, w), k);
  if (left) return mkBin(K::OR, mkBin(K::SHL, a, k), mkBin(K::LSHR, b, inv)); // SMT shift by w gives 0
  return mkBin(K::OR, mkBin(K::SHL, a, inv), mkBin(K::LSHR, b, k));
}
E mkIsFpClass(E a, u32 mask) {
  unsigned w = a->width; u128 em = expMask(w); unsigned mb = w == 32 ? 23 : 52;
  E mag = mkExtract(a, 0, w - 1), s = mkExtract(a, w - 1, 1), r = mkConst(0, 1);
  auto M = [&](u128 v) { return mkConst(v, w - 1); };
  E nan = mkUlt(M(em), mag), quiet = mkExtract(a, mb - 1, 1), inf = mkEq(mag, M(em)), zero = mkEq(mag, M(0));
  E sub = mkAnd1(mkNot(zero), mkUlt(mag, M((u128)1 << mb)));
  E norm = mkAnd1(mkUle(M((u128)1 << mb), mag), mkUlt(mag, M(em)));
  auto add = [&](unsigned bit, E c) { if (mask >> bit & 1) r = mkOr1(r, c); };
  add(0, mkAnd1(nan, mkNot(quiet))); add(1, mkAnd1(nan, quiet));
  add(2, mkAnd1(inf, s)); add(3, mkAnd1(norm, s)); add(4, mkAnd1(sub, s)); add(5, mkAnd1(zero, s));
  add(6, mkAnd1(zero, mkNot(s))); add(7, mkAnd1(sub, mkNot(s))); add(8, mkAnd1(norm, mkNot(s))); add(9, mkAnd1(inf, mkNot(s)));
  (void)cst; return r;
}
E mkFMin(E a, E b, int kind) {
  unsigned w = a->width; E na = fIsNan(a), nb = fIsNan(b);
  bool mx = kind & 1; E lt = mx ? fOlt(b, a) : fOlt(a, b);
  E sa = mkExtract(a, w - 1, 1);
  E bothZero = mkEq(mkExtract(mkBin(K::OR, a, b), 0, w - 1), mkConst(0, w - 1));
  E pickA = mkIte(bothZero, mx ? mkNot(sa) : sa, lt);
  E r = mkIte(pickA, a, b);
  if (kind < 2) return mkIte(na, b, mkIte(nb, a, r));
  u128 q = w == 32 ? 0x400000 : 0x8000000000000ull;
  return mkIte(na, mkBin(K::OR, a, mkConst(q, w)), mkIte(nb, mkBin(K::OR, b, mkConst(q, w)), r));
}
E umulOverflow(E a, E b) { unsigned w = a->width; if (w > 64) return mkAnd1(mkNot(mkEq(b, mkConst(0, w))), mkUlt(mkBin(K::UDIV, mkConst(~(u128)0, w), b), a));
  E p = mkBin(K::MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)); return mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))); }
E smulOverflow(E a, E b) { unsigned w = a->width; if (w > 64) { // by magnitudes
    E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), z = mkConst(0, w); E ma = mkIte(sa, mkBin(K::SUB, z, a), a), mb = mkIte(sb, mkBin(K::SUB, z, b), b);
    E lim = mkIte(mkBin(K::XOR, sa, sb), mkConst((u128)1 << 127, w), mkConst(((u128)1 << 127) - 1, w));
    return mkOr1(umulOverflow(ma, mb), mkUlt(lim, mkBin(K::MUL, ma, mb))); }
  E p = mkBin(K::MUL, mkSext(a, 2 * w), mkSext(b, 2 * w)); return mkNot(mkEq(p, mkSext(mkExtract(p, 0, w), 2 * w))); }
E saddOverflow(E a, E b) { unsigned w = a->width; E p = mkBin(K::ADD, a, b); E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sp = mkExtract(p, w - 1, 1);
  return mkAnd1(mkEq(sa, sb), mkBin(K::XOR, sa, sp)); }
E ssubOverflow(E a, E b) { unsigned w = a->width; E p = mkBin(K::SUB, a, b); E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sp = mkExtract(p, w - 1, 1);
  return mkAnd1(mkBin(K::XOR, sa, sb), mkBin(K::XOR, sa, sp)); }
std::string exprStr(E e, int d) {
  static const char* n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma", "fround", "fpext", "fptrunc", "fptosi", "fptoui", "fptosisat", "fptouisat", "sitofp", "uitofp"};
  char b[80];
  if (isC(e)) { if (e->val >> 64) snprintf(b, 80, "0x%llx%016llx", (unsigned long long)(e->val >> 64), (unsigned long long)e->val); else snprintf(b, 80, "%llu", (unsigned long long)e->val); return std::string(b) + ":" + std::to_string(e->width); }
  if (e->op == K::VAR) return gVars[e->aux].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->op]; if (e->op == K::EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  for (int i = 0; i < e->nch; i++) s += " " + exprStr(e->ch[i], d - 1); return s + ")";
}
