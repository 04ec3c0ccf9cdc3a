// Hash-consed bit-vector expression DAG with light rewriting and concrete evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum class K : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
  // floating point over IEEE bit patterns (operand widths 32/64)
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FMA, FROUND /*aux: 0 rne 1 ceil 2 floor 3 trunc 4 rna*/, FPEXT, FPTRUNC,
  FPTOSI, FPTOUI /* unspecified when out of range */, FPTOSISAT, FPTOUISAT, SITOFP, UITOFP,
};
struct Expr {
  K op; u8 nch; u16 width; u32 aux; u32 id; u32 evalStamp; u64 vars; u64 hash;
  union { u128 val; Expr* ch[3]; };
  u128 evalVal;
};
typedef Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextv(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)(((v & maskw(w)) ^ s) - s); }

struct EHash { size_t operator()(E e) const { return e->hash; } };
struct EEq {
  bool operator()(E a, E b) const {
    if (a->op != b->op || a->width != b->width || a->aux != b->aux || a->nch != b->nch) return false;
    if (a->op == K::CONST) return a->val == b->val;
    for (int i = 0; i < a->nch; i++) if (a->ch[i] != b->ch[i]) return false;
    return true;
  }
};
struct ExprPool {
  std::vector<E> table; size_t count = 0; u32 nextId = 1;
  char* arena = nullptr; size_t arenaLeft = 0; size_t bytes = 0;
  ExprPool() { table.assign(1 << 16, nullptr); }
  E alloc() {
    if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 20; arena = (char*)aligned_alloc(16, arenaLeft); bytes += arenaLeft; }
    E e = (E)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
  }
  E intern(Expr& t) {
    u64 h = (u64)t.op * 0x9E3779B97F4A7C15ull + t.width * 0xC2B2AE3D27D4EB4Full + t.aux * 0x165667B19E3779F9ull;
    if (t.op == K::CONST) { h ^= (u64)t.val * 0xff51afd7ed558ccdull; h = (h << 13 | h >> 51) ^ (u64)(t.val >> 64) * 0xc4ceb9fe1a85ec53ull; }
    else for (int i = 0; i < t.nch; i++) { h = (h ^ t.ch[i]->id) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
    h ^= h >> 32; t.hash = h;
    EEq eq; size_t m = table.size() - 1, i = h & m;
    while (table[i]) { if (table[i]->hash == h && eq(table[i], &t)) return table[i]; i = (i + 1) & m; }
    E e = alloc(); *e = t; e->id = nextId++; e->evalStamp = 0;
    if (t.op == K::CONST) e->vars = 0;
    else if (t.op == K::VAR) e->vars = (u64)1 << (t.aux & 63);
    else { e->vars = 0; for (int k = 0; k < t.nch; k++) e->vars |= t.ch[k]->vars; }
    table[i] = e;
    if (++count * 2 > table.size()) {
      std::vector<E> old; old.swap(table); table.assign(old.size() * 2, nullptr); m = table.size() - 1;
      for (E x : old) if (x) { size_t j = x->hash & m; while (table[j]) j = (j + 1) & m; table[j] = x; }
    }
    return e;
  }
};
extern ExprPool pool;
struct VarInfo { std::string name; unsigned width; E e; };
extern std::vector<VarInfo> gVars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(K op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a); // width 1
E mkEq(E a, E b);
E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkAnd1(E a, E b); E mkOr1(E a, E b);
E mkF(K op, unsigned w, unsigned aux, E a, E b = nullptr, E c = nullptr);
inline bool isC(E e) { return e->op == K::CONST; }
inline bool isTrue(E e) { return isC(e) && e->val == 1; }
inline bool isFalse(E e) { return isC(e) && e->val == 0; }
struct Model { std::vector<u128> v; u128 get(u32 i) const { return i < v.size() ? v[i] : 0; } void set(u32 i, u128 x) { if (v.size() <= i) v.resize(i + 1, 0); v[i] = x; } };
u128 evalExpr(E e, const Model& m); // memoised per call
void newEvalStamp();
u128 evalExprStamped(E e, const Model& m);
u128 applyOp(K op, unsigned w, unsigned aux, const u128* v, const unsigned* ws);
unsigned trailingZeros(E e);
unsigned leadingZeros(E e);
std::string exprStr(E e, int depth = 4);
E fIsNan(E a); E fOeq(E a, E b); E fOlt(E a, E b); E fOle(E a, E b);
E fFCmp(unsigned pred, E a, E b); // LLVM fcmp predicate encoding 0..15
E mkCtlz(E a); E mkCttz(E a); E mkCtpop(E a); E mkBswap(E a); E mkBitrev(E a);
E mkFsh(bool left, E a, E b, E s);
E mkIsFpClass(E a, u32 mask);
E mkFMin(E a, E b, int kind); // 0 minnum 1 maxnum 2 minimum 3 maximum
E mkHard(K op, E a, E b);
E smulOverflow(E a, E b); E umulOverflow(E a, E b); E saddOverflow(E a, E b); E ssubOverflow(E a, E b);
