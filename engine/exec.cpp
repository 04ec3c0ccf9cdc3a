// Symbolic executor over the compact code of ir.cpp.
#include "ir.hpp"
#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <set>
#include <signal.h>
#include <atomic>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---------------------------------------------------------------- memory
constexpr u32 CH = 256;
struct Chunk { u32 rc = 1; E* sym = nullptr; u8 d[CH]; };
static Chunk* chClone(Chunk* c) { Chunk* n = new Chunk; memcpy(n->d, c->d, CH); if (c->sym) { n->sym = (E*)malloc(CH * sizeof(E)); memcpy(n->sym, c->sym, CH * sizeof(E)); } return n; }
static void chUnref(Chunk* c) { if (c && --c->rc == 0) { free(c->sym); delete c; } }
struct Obj {
  u32 rc = 1; bool ro = false, big = false; u8 kind = 0; u64 size = 0; // kind 0 heap 1 stack 2 global
  std::vector<Chunk*> ch; std::unordered_map<u64, Chunk*> bch;
  Chunk* at(u64 i) const { if (!big) return ch[i]; auto it = bch.find(i); return it == bch.end() ? nullptr : it->second; }
  void set(u64 i, Chunk* c) { if (!big) ch[i] = c; else bch[i] = c; }
  Chunk* wr(u64 i) { Chunk* c = at(i); if (!c) { c = new Chunk; memset(c->d, 0, CH); set(i, c); } else if (c->rc > 1) { c->rc--; c = chClone(c); set(i, c); } return c; }
};
static Obj* objNew(u64 size, u8 kind) { Obj* o = new Obj; o->size = size; o->kind = kind; u64 n = (size + CH - 1) / CH; if (n > 65536) o->big = true; else o->ch.assign(n, nullptr); return o; }
static Obj* objClone(Obj* o) { Obj* n = new Obj(*o); n->rc = 1; if (n->big) { for (auto& p : n->bch) p.second->rc++; } else for (Chunk* c : n->ch) if (c) c->rc++; return n; }
static void objUnref(Obj* o) { if (o && --o->rc == 0) { if (o->big) { for (auto& p : o->bch) chUnref(p.second); } else for (Chunk* c : o->ch) chUnref(c); delete o; } }
struct Block { u32 rc = 1; Obj* o[256]; };
static void blkUnref(Block* b) { if (b && --b->rc == 0) { for (Obj* o : b->o) objUnref(o); delete b; } }
// larger allocations fail, as on the 32 GiB machine this runs on
static const u64 HUGE_ALLOC = 1ull << 35;
struct Frame { Func* f; u32 pc; u32 base; u32 allocaBase; int32_t retDst; bool discardRet; };
struct Input { std::string name; u32 var; unsigned width; };
struct State {
  std::vector<Frame> frames; std::vector<Slot> regs; std::vector<u32> allocas; std::vector<Block*> mem; std::vector<u32> freeIds; u32 nextObj = 0;
  std::vector<E> pc; std::unordered_map<E, E> known; Model model; std::vector<Input> inputs; u64 icount = 0; u32 depth = 0; u32 tmp[4] = {0}; std::vector<std::string> trail;
  u64 clock = 0; u64 symClock = 0; std::vector<std::pair<u64,u64>> tlsKeys; u32 varSeq = 0; std::string note;
  E ckS = nullptr, ckN = nullptr;
  State() {}
  State(const State& s) : frames(s.frames), regs(s.regs), allocas(s.allocas), mem(s.mem), freeIds(s.freeIds), nextObj(s.nextObj), pc(s.pc), known(s.known), model(s.model), inputs(s.inputs), icount(s.icount), depth(s.depth), trail(s.trail), clock(s.clock), symClock(s.symClock), tlsKeys(s.tlsKeys), varSeq(s.varSeq), note(s.note), ckS(s.ckS), ckN(s.ckN) { for (Block* b : mem) if (b) b->rc++; }
  ~State() { for (Block* b : mem) blkUnref(b); }
  Obj* get(u64 id) const { u64 bi = id >> 8; if (bi >= mem.size() || !mem[bi]) return nullptr; return mem[bi]->o[id & 255]; }
  Block* wblk(u64 bi) { if (bi >= mem.size()) mem.resize(bi + 1, nullptr); Block* b = mem[bi]; if (!b) { b = new Block; memset(b->o, 0, sizeof b->o); mem[bi] = b; } else if (b->rc > 1) { Block* n = new Block; memcpy(n->o, b->o, sizeof n->o); for (Obj* o : n->o) if (o) o->rc++; b->rc--; mem[bi] = n; b = n; } return b; }
  Obj* wget(u64 id) { Block* b = wblk(id >> 8); Obj*& o = b->o[id & 255]; if (o && o->rc > 1) { o->rc--; o = objClone(o); } return o; }
  u64 alloc(u64 size, u8 kind) { u32 id; if (!freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); } else id = nextObj++; Block* b = wblk(id >> 8); b->o[id & 255] = objNew(size, kind); return ((u64)id << OSHIFT) + OBASE; }
  void release(u64 id) { Block* b = wblk(id >> 8); objUnref(b->o[id & 255]); b->o[id & 255] = nullptr; freeIds.push_back(id); }
};
// ---------------------------------------------------------------- reporting
struct Stop { int kind; std::string msg; }; // 0 path done, 1 error(inconclusive), 2 killed after violation
static FILE* gOut; static u64 gPaths, gForks, gInstr, gChecks, gChecksTrivial, gViol, gErrors, gPruned, gMaxDepth, gConcretize; static std::set<std::string> gCovers, gErrMsgs; static std::set<std::string> gViolKeys;
static double gDeadline; static u64 gMaxInstrPath = 100000000, gMaxForks = 2000000; static std::string gHarness; static bool gVerbose; static u64 gMaxViol = 8; static size_t gMemLimitMB = 6000;
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string u128s(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "0x%llx", (unsigned long long)v); return b; }
static std::string shortName(const std::string& n) { return n; }
static std::string backtrace(State& s, int n = 8) { std::string r; for (int i = (int)s.frames.size() - 1; i >= 0 && n--; i--) { Frame& f = s.frames[i]; u32 pc = f.pc < f.f->loc.size() ? f.pc : 0; r += f.f->name + "@" + gLocs[f.f->loc.empty() ? 0 : f.f->loc[pc]] + "\n"; } return r; }
static void noteViol();
static void violation(State& s, const Model& m, const std::string& kind, const std::string& msg, const std::string& where) {
  std::string key = kind + "|" + msg + "|" + where + "|" + s.note; gViol++;
  if (!gViolKeys.insert(key).second) return; noteViol();
  std::string o = "{\"kind\":\"violation\",\"harness\":" + jstr(gHarness) + ",\"type\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where) + ",\"note\":" + jstr(s.note) + ",\"stack\":" + jstr(backtrace(s)) + ",\"inputs\":[";
  for (size_t i = 0; i < s.inputs.size(); i++) { if (i) o += ","; o += "[" + jstr(s.inputs[i].name) + "," + std::to_string(s.inputs[i].width) + ",\"" + u128s(m.get(s.inputs[i].var) & maskw(s.inputs[i].width)) + "\"]"; }
  o += "]}"; fprintf(gOut, "%s\n", o.c_str()); fflush(gOut);
}
static void witness(State& s, const std::string& label) {
  std::string o = "{\"kind\":\"witness\",\"harness\":" + jstr(gHarness) + ",\"cover\":" + jstr(label) + ",\"inputs\":[";
  for (size_t i = 0; i < s.inputs.size(); i++) { if (i) o += ","; o += "[" + jstr(s.inputs[i].name) + "," + std::to_string(s.inputs[i].width) + ",\"" + u128s(s.model.get(s.inputs[i].var) & maskw(s.inputs[i].width)) + "\"]"; }
  o += "]}"; fprintf(gOut, "%s\n", o.c_str());
}
static void errorOut(State* s, const std::string& msg) {
  gErrors++; if (gErrMsgs.insert(msg).second) { fprintf(gOut, "{\"kind\":\"error\",\"harness\":%s,\"msg\":%s,\"stack\":%s}\n", jstr(gHarness).c_str(), jstr(msg).c_str(), jstr(s ? backtrace(*s) : "").c_str()); fflush(gOut); }
}
// ---------------------------------------------------------------- names
int panicKindOf(const std::string& n) {
  auto has = [&](const char* p) { return n.find(p) != std::string::npos; };
  if (has("rust_begin_unwind") || has("core9panicking") || has("13unwrap_failed") || has("13expect_failed") || has("18handle_alloc_error") || has("handle_error") || has("capacity_overflow") || has("rust_panic") || has("begin_panic") || has("slice_index_fail") || has("index_len_fail") || has("panic_already_borrowed") || has("panic_already_mutably") || has("panic_access_error") || has("slice_error_fail") || has("len_mismatch_fail") || has("panic_bounds_check") || has("rust_foreign_exception") || has("panic_cold") || has("5slice5index16slice_") || has("panic_nounwind")) {
    if (has("handle_error") && !has("raw_vec")) return 0;
    if (has("payload") || has("PanicHookInfo") || has("PanicInfo") || has("PanicMessage") || has("fmt")) { if (!has("panic_fmt") && !has("panic_nounwind_fmt")) return 0; }
    if (has("panic_count") || has("drop_in_place")) return 0;
    return 1;
  }
  return 0;
}
enum Ext { X_MALLOC = 1, X_CALLOC, X_REALLOC, X_FREE, X_MEMALIGN, X_MEMCMP, X_STRLEN, X_ZERO, X_ONE, X_ABORT, X_SYMVAR, X_ASSUME, X_CHECK, X_COVER, X_CONC, X_ITE, X_WRITE, X_ERRNO, X_CLOCK, X_NOTE, X_CHOOSE, X_REACH, X_SYMBYTES, X_CONSTRAIN, X_ISSYM, X_MEMCPY, X_MEMSET, X_SYMCLOCK, X_GETRANDOM, X_SYSCALL, X_MAX, X_KEYCREATE, X_NEG1, X_PTHREAD_SELF, X_TRACE, X_EXITPATH, X_FMOD, X_FMODF, X_SYSCONF, X_FMA, X_FMAF, X_RNDF, X_TLSSAVE, X_TLSLOAD };
int extKind(const std::string& n) {
  static const std::unordered_map<std::string, int> m = {{"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"posix_memalign", X_MEMALIGN}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"strlen", X_STRLEN},
    {"getenv", X_ZERO}, {"secure_getenv", X_ZERO}, {"dlsym", X_ZERO}, {"pthread_mutex_lock", X_ZERO}, {"pthread_mutex_unlock", X_ZERO}, {"__cxa_thread_atexit_impl", X_ZERO}, {"pthread_key_create", X_KEYCREATE}, {"pthread_key_delete", X_ZERO}, {"pthread_setspecific", X_ZERO}, {"pthread_getspecific", X_ZERO}, {"sched_yield", X_ZERO}, {"pthread_self", X_PTHREAD_SELF}, {"gettid", X_ONE}, {"abort", X_ABORT},
    {"sym_var", X_SYMVAR}, {"sym_assume", X_ASSUME}, {"sym_check", X_CHECK}, {"sym_cover", X_COVER}, {"sym_concretize", X_CONC}, {"sym_ite", X_ITE}, {"sym_note", X_NOTE}, {"sym_choose", X_CHOOSE}, {"sym_is_symbolic", X_ISSYM}, {"sym_set_clock", X_SYMCLOCK}, {"sym_trace", X_TRACE}, {"sym_end_path", X_EXITPATH},
    {"write", X_WRITE}, {"writev", X_WRITE}, {"__errno_location", X_ERRNO}, {"clock_gettime", X_CLOCK}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"getrandom", X_GETRANDOM}, {"syscall", X_SYSCALL}, {"fmod", X_FMOD}, {"fmodf", X_FMODF}, {"sysconf", X_SYSCONF}, {"fma", X_FMA}, {"fmaf", X_FMAF}, {"sched_getaffinity", X_NEG1}, {"pthread_attr_init", X_ZERO}, {"pthread_attr_setstacksize", X_ZERO}, {"pthread_attr_destroy", X_ZERO}, {"pthread_detach", X_ZERO}, {"__pthread_get_minstack", X_ZERO}, {"prctl", X_ZERO}, {"pthread_setname_np", X_ZERO}, {"sym_tls_save", X_TLSSAVE}, {"sym_tls_load", X_TLSLOAD}};
  auto it = m.find(n); return it == m.end() ? -1 : it->second;
}
// ---------------------------------------------------------------- executor
struct Fork { std::unique_ptr<State> s; };
struct Exec {
  std::deque<std::unique_ptr<State>> work; State* S = nullptr; Slot* R = nullptr; // R: registers of the current frame
  std::unordered_map<u64, bool> ginit; std::unordered_map<u64, u32> concCount;
  [[noreturn]] void err(const std::string& m) { throw Stop{1, m}; }
  Slot& reg(int32_t i) { return R[i]; }
  const Slot& get(int32_t i) const { return i >= 0 ? R[i] : gConsts[-1 - i]; }
  static E toE(const Slot& s, unsigned w) { return s.e ? s.e : mkConst(s.v, w); }
  E ge(int32_t i, unsigned w) { return toE(get(i), w); }
  Slot mkS(E e) { if (!S->known.empty()) { auto it = S->known.find(e); if (it != S->known.end()) e = it->second; } if (isC(e) && e->width <= 64) return {(u64)e->val, nullptr}; return {0, e}; }
  void setE(int32_t d, E e) { R[d] = mkS(e); }
  void addPc(State* s, E c) {
    if (isTrue(c)) return;
    if (c->op == K::AND && c->width == 1) { addPc(s, c->ch[0]); addPc(s, c->ch[1]); return; }
    for (E e : s->pc) if (e == c) return;
    s->pc.push_back(c);
    if (c->op == K::EQ && isC(c->ch[1])) learn(s, c->ch[0], c->ch[1]);
    if (c->width == 1) { if (c->op == K::XOR && isTrue(c->ch[1])) s->known[c->ch[0]] = mkConst(0, 1); else s->known[c] = mkConst(1, 1); }
  }
  void learn(State* s, E x, E k) { s->known[x] = k; if (x->op == K::ZEXT || x->op == K::SEXT) learn(s, x->ch[0], mkConst(k->val, x->ch[0]->width));
    else if (x->op == K::ADD && isC(x->ch[1])) learn(s, x->ch[0], mkBin(K::SUB, k, x->ch[1]));
    else if (x->op == K::SHL && isC(x->ch[1]) && x->ch[1]->val < x->width && leadingZeros(x->ch[0]) >= (unsigned)x->ch[1]->val) learn(s, x->ch[0], mkBin(K::LSHR, k, x->ch[1]));
    else if (x->op == K::CONCAT && x->ch[1]->op == K::CONST) learn(s, x->ch[0], mkExtract(k, x->ch[1]->width, x->ch[0]->width)); }
  Res query(E q, Model* m) { static bool prof = getenv("SYMX_PROFILE"); if (prof) { u64 c = sstats.queries; Res r = solve(S->pc, q, S->model, m); if (sstats.queries != c) { std::string w = where(); for (int i = (int)S->frames.size() - 1, k = 0; i >= 0 && k < 3; i--, k++) w += " < " + S->frames[i].f->name; fprintf(stderr, "Q %d %s :: %s\n", (int)r, w.c_str(), exprStr(q, 6).c_str()); } return r; }
    Res r = solve(S->pc, q, S->model, m); if (r == Res::UNKNOWN) err("solver gave no answer for a query (time limit)"); return r; }
  E simp(E e) { if (!S->known.empty()) { auto it = S->known.find(e); if (it != S->known.end()) return it->second; if (e->width == 1 && e->op == K::XOR && isTrue(e->ch[1])) { it = S->known.find(e->ch[0]); if (it != S->known.end()) return mkNot(it->second); } } return e; }
  // decide a symbolic condition: returns the side taken by the current state; the other feasible side is queued at the same pc
  bool branch(E c) {
    c = simp(c); if (isC(c)) return c->val;
    bool side = evalExpr(c, S->model) == 1; E other = side ? mkNot(c) : c; Model m;
    if (query(other, &m) == Res::SAT) { auto n = fork(); addPc(n.get(), other); n->model = m; work.push_back(std::move(n)); }
    addPc(S, side ? c : mkNot(c)); return side;
  }
  std::unique_ptr<State> fork() { gForks++; if (gForks > gMaxForks) err("fork limit"); auto n = std::make_unique<State>(*S); n->depth++; if (n->depth > gMaxDepth) gMaxDepth = n->depth; S->depth++; return n; }
  // make a symbolic value concrete by forking over every feasible value
  u128 concretize(E e, const char* what, u32 limit = 4096) {
    e = simp(e); if (isC(e)) return e->val;
    u128 v = evalExpr(e, S->model); E eq = mkEq(e, mkConst(v, e->width)); Model m;
    if (query(mkNot(eq), &m) == Res::SAT) { Frame& f = S->frames.back(); u64 k = ((u64)f.f->id << 32) ^ f.pc; if (++concCount[k] > limit) err(std::string("too many values while making concrete: ") + what); gConcretize++; auto n = fork(); addPc(n.get(), mkNot(eq)); n->model = m; work.push_back(std::move(n)); }
    addPc(S, eq); return v;
  }
  u64 conc(int32_t i, unsigned w, const char* what) { const Slot& s = get(i); if (!s.e) return s.v; if (isC(s.e)) return (u64)s.e->val; return (u64)concretize(s.e, what); }
  // ---- memory access
  void initGlobal(u64 id) {
    u64 gi = id - GLOBAL_OBJ0; GlobalDef& g = gGlobals[gi]; std::vector<u8> b; irInitGlobal(g, b); Obj* o = objNew(g.size, 2); o->ro = g.ro;
    for (u64 i = 0; i < b.size(); i++) if (b[i]) o->wr(i / CH)->d[i % CH] = b[i];
    Block* bl = S->wblk(id >> 8); bl->o[id & 255] = o;
  }
  Obj* object(u64 id) { Obj* o = S->get(id); if (!o && id >= GLOBAL_OBJ0 && id - GLOBAL_OBJ0 < gGlobals.size()) { initGlobal(id); o = S->get(id); } return o; }
  Obj* wobject(u64 id) { object(id); return S->wget(id); }
  [[noreturn]] void memErr(u64 addr, u64 n, const char* what) { char b[160]; Obj* o = object(addr >> OSHIFT); snprintf(b, 160, "invalid %s of %llu bytes at %llx (object size %lld)", what, (unsigned long long)n, (unsigned long long)addr, o ? (long long)o->size : -1ll); violation(*S, S->model, "memory", b, where()); throw Stop{2, b}; }
  std::string where() { Frame& f = S->frames.back(); return f.f->loc.empty() ? "?" : gLocs[f.f->loc[f.pc]]; }
  u8 rawByte(Obj* o, u64 off, E* sym) { Chunk* c = o->at(off / CH); *sym = nullptr; if (!c) return 0; if (c->sym && c->sym[off % CH]) *sym = c->sym[off % CH]; return c->d[off % CH]; }
  E byteE(Obj* o, u64 off) { E s; u8 b = rawByte(o, off, &s); return s ? s : mkConst(b, 8); }
  void setByte(Obj* o, u64 off, E e) { Chunk* c = o->wr(off / CH); u32 i = off % CH; if (isC(e)) { c->d[i] = (u8)e->val; if (c->sym) c->sym[i] = nullptr; } else { if (!c->sym) c->sym = (E*)calloc(CH, sizeof(E)); c->sym[i] = e; } }
  Slot loadC(Obj* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8; Chunk* c = o->at(off / CH); u32 i = off % CH;
    if (i + n <= CH) {
      if (!c) { if (w <= 64) return {0, nullptr}; return {0, mkConst(0, w)}; }
      bool sym = false; if (c->sym) for (unsigned k = 0; k < n; k++) if (c->sym[i + k]) { sym = true; break; }
      if (!sym) { if (w <= 64) { u64 v = 0; memcpy(&v, c->d + i, n); if (w < 64) v &= (1ull << w) - 1; return {v, nullptr}; } u128 v = 0; memcpy(&v, c->d + i, n); return {0, mkConst(v, w)}; }
    }
    E r = byteE(o, off); for (unsigned k = 1; k < n; k++) r = mkConcat(byteE(o, off + k), r);
    if (r->width > w) r = mkExtract(r, 0, w);
    return mkS(r);
  }
  void storeC(Obj* o, u64 off, unsigned w, const Slot& s) {
    unsigned n = (w + 7) / 8;
    if (!s.e && off % CH + n <= CH) { Chunk* c = o->wr(off / CH); u32 i = off % CH; memcpy(c->d + i, &s.v, n); if (c->sym) for (unsigned k = 0; k < n; k++) c->sym[i + k] = nullptr; return; }
    E e = toE(s, w); if (w % 8) e = mkZext(e, n * 8);
    for (unsigned k = 0; k < n; k++) setByte(o, off + k, mkExtract(e, 8 * k, 8));
  }
  // unsigned range of e under the path condition (both ends attained)
  void range(E e, u64& lo, u64& hi) {
    Model m; u64 cur = (u64)evalExpr(e, S->model); unsigned w = e->width; auto le = [&](u64 k) { return mkUle(e, mkConst(k, w)); }; auto gev = [&](u64 k) { return mkUle(mkConst(k, w), e); };
    u64 a = 0, b = cur; while (a < b) { u64 mid = a + (b - a) / 2; if (query(le(mid), &m) == Res::SAT) { b = (u64)evalExpr(e, m); if (b > mid) err("range"); } else a = mid + 1; } lo = a;
    a = cur; u64 top = leadingZeros(e) >= w ? 0 : (u64)maskw(w - leadingZeros(e)); b = top;
    // gallop upwards first: ranges are usually short
    u64 step = 1; while (a < b) { u64 t = a + step < a ? b : std::min(b, a + step); if (query(gev(t), &m) == Res::SAT) { a = (u64)evalExpr(e, m); step *= 4; } else { b = t - 1; break; } }
    while (a < b) { u64 mid = a + (b - a + 1) / 2; if (query(gev(mid), &m) == Res::SAT) a = (u64)evalExpr(e, m); else b = mid - 1; } hi = a;
  }
  // resolve a symbolic address to one object; queues a state for every other possibility, reports accesses that can be out of bounds
  Obj* resolve(E addr, u64 n, u64& id, E& off, u64& lo, u64& hi, const char* what, bool wr) {
    u64 a = (u64)evalExpr(addr, S->model); id = a >> OSHIFT; Obj* o = object(id); if (!o || (a & ((1ull << OSHIFT) - 1)) < OBASE || (a & ((1ull << OSHIFT) - 1)) - OBASE + n > o->size) { // the model itself is out of bounds
      char b[160]; snprintf(b, 160, "invalid %s of %llu bytes at %llx (object size %lld)", what, (unsigned long long)n, (unsigned long long)a, o ? (long long)o->size : -1ll); violation(*S, S->model, "memory", b, where()); throw Stop{2, b}; }
    u64 base = (id << OSHIFT) + OBASE; E d = mkBin(K::SUB, addr, mkConst(base, 64)); E in = mkUle(d, mkConst(o->size - n, 64)); Model m;
    if (query(mkNot(in), &m) == Res::SAT) { auto s = fork(); addPc(s.get(), mkNot(in)); s->model = m; work.push_back(std::move(s)); addPc(S, in); }
    range(d, lo, hi); off = d; if (wr) o = wobject(id); return o;
  }
  static unsigned strideOf(E off) { unsigned t = trailingZeros(off); return t > 12 ? 12 : t; }
  static constexpr u64 MAXCAND = 2048;
  Slot loadSym(E addr, unsigned w) {
    u64 id, lo, hi; E off; unsigned n = (w + 7) / 8; Obj* o = resolve(addr, n, id, off, lo, hi, "load", false);
    if (lo == hi) { addPc(S, mkEq(off, mkConst(lo, 64))); return loadC(o, lo, w); }
    E base = off; u64 st = 1; // stride from structure: constant + multiple
    { E v = off; u64 c = 0; if (v->op == K::ADD && isC(v->ch[1])) { c = (u64)v->ch[1]->val; v = v->ch[0]; } unsigned t = strideOf(v); if (t) { u64 m = (1ull << t) - 1; if (((lo - c) & m) == 0) st = m + 1; } }
    if ((hi - lo) / st >= MAXCAND) { char b[120]; snprintf(b, 120, "symbolic load range too wide (%llu..%llu stride %llu)", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)st); err(b); }
    std::vector<std::pair<u64, E>> vals; std::unordered_map<E, u32> cnt;
    for (u64 k = lo; k <= hi; k += st) { E v = toE(loadC(o, k, w), w); vals.push_back({k, v}); cnt[v]++; }
    E def = vals.back().second; u32 best = 0; for (auto& p : vals) if (cnt[p.second] > best) { best = cnt[p.second]; def = p.second; }
    E r = def; for (size_t i = vals.size(); i-- > 0;) if (vals[i].second != def) r = mkIte(mkEq(base, mkConst(vals[i].first, 64)), vals[i].second, r);
    bool allC = true; for (auto& p : vals) if (!isC(p.second)) { allC = false; break; }
    if (allC && !isC(r)) loadAddr[r] = addr;
    return mkS(r);
  }
  // the part of an address that selects among constants (what a jump table yields), else the address
  std::unordered_map<E, E> loadAddr;
  static bool constTree(E e, std::unordered_map<E, bool>& memo) { if (isC(e)) return true; auto it = memo.find(e); if (it != memo.end()) return it->second; return memo[e] = e->op == K::ITE && constTree(e->ch[1], memo) && constTree(e->ch[2], memo); }
  E pivot(E addr) {
    std::unordered_map<E, bool> memo; std::set<E> found; std::unordered_set<E> seen; std::vector<E> st{addr};
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (isC(x) || !seen.insert(x).second) continue; if (x->op == K::VAR) return addr; if (constTree(x, memo)) { found.insert(x); continue; } for (int i = 0; i < x->nch; i++) st.push_back(x->ch[i]); }
    return found.size() == 1 ? *found.begin() : addr;
  }
  void storeSym(E addr, unsigned w, const Slot& v) {
    u64 id, lo, hi; E off; unsigned n = (w + 7) / 8; Obj* o = resolve(addr, n, id, off, lo, hi, "store", true);
    if (o->ro) memErr(lo, n, "store to constant");
    if (lo == hi) { addPc(S, mkEq(off, mkConst(lo, 64))); storeC(o, lo, w, v); return; }
    u64 st = 1; { E x = off; u64 c = 0; if (x->op == K::ADD && isC(x->ch[1])) { c = (u64)x->ch[1]->val; x = x->ch[0]; } unsigned t = strideOf(x); if (t) { u64 m = (1ull << t) - 1; if (((lo - c) & m) == 0) st = m + 1; } }
    if ((hi - lo) / st >= MAXCAND) err("symbolic store range too wide");
    E e = toE(v, w); if (w % 8) e = mkZext(e, n * 8);
    for (u64 k = lo; k <= hi; k += st) { E c = mkEq(off, mkConst(k, 64)); for (unsigned j = 0; j < n; j++) setByte(o, k + j, mkIte(c, mkExtract(e, 8 * j, 8), byteE(o, k + j))); }
  }
  Obj* checkC(u64 a, u64 n, const char* what, u64& off, bool wr) {
    u64 id = a >> OSHIFT; off = (a & ((1ull << OSHIFT) - 1)) - OBASE; Obj* o = object(id); if (!o || off > o->size || n > o->size - off) memErr(a, n, what); if (wr) { if (o->ro) memErr(a, n, "store to constant"); o = S->wget(id); } return o; }
  void copyC(u64 dst, u64 src, u64 n) {
    if (!n) return; u64 so, d0; Obj* s = checkC(src, n, "memcpy read", so, false); Obj* d = checkC(dst, n, "memcpy write", d0, true); s = object(src >> OSHIFT);
    if (s != d && n >= CH && so % CH == 0 && d0 % CH == 0) { u64 k = 0; for (; k + CH <= n; k += CH) { Chunk* c = s->at((so + k) / CH); Chunk* old = d->at((d0 + k) / CH); if (c == old) continue; if (c) c->rc++; if (!d->big || c) d->set((d0 + k) / CH, c); else d->bch.erase((d0 + k) / CH); chUnref(old); } so += k; d0 += k; n -= k; if (!n) return; }
    bool anySym = false; for (u64 c = so / CH; c <= (so + n - 1) / CH; c++) { Chunk* k = s->at(c); if (k && k->sym) anySym = true; }
    if (!anySym) {
      std::vector<u8> buf(std::min<u64>(n, 1 << 20));
      if (n > buf.size() && s == d) { buf.resize(n); }
      for (u64 p = 0; p < n; p += buf.size()) { u64 len = std::min<u64>(buf.size(), n - p);
        for (u64 i = 0; i < len;) { u64 oo = so + p + i; u64 l = std::min<u64>(CH - oo % CH, len - i); Chunk* c = s->at(oo / CH); if (c) memcpy(&buf[i], c->d + oo % CH, l); else memset(&buf[i], 0, l); i += l; }
        writeBuf(d, d0 + p, buf.data(), len); }
      return;
    }
    std::vector<E> tmp(n); std::vector<u8> tb(n); for (u64 i = 0; i < n; i++) tb[i] = rawByte(s, so + i, &tmp[i]);
    for (u64 i = 0; i < n; i++) { Chunk* c = d->wr((d0 + i) / CH); u32 k = (d0 + i) % CH; if (tmp[i]) { if (!c->sym) c->sym = (E*)calloc(CH, sizeof(E)); c->sym[k] = tmp[i]; } else { c->d[k] = tb[i]; if (c->sym) c->sym[k] = nullptr; } }
  }
  void writeBuf(Obj* d, u64 off, const u8* b, u64 n) { for (u64 i = 0; i < n;) { u64 oo = off + i; u64 l = std::min<u64>(CH - oo % CH, n - i); bool z = l == CH; if (z) for (u64 k = 0; k < l; k++) if (b[i + k]) { z = false; break; }
      if (z) { Chunk* old = d->at(oo / CH); if (old) { if (d->big) d->bch.erase(oo / CH); else d->ch[oo / CH] = nullptr; chUnref(old); } } else { Chunk* c = d->wr(oo / CH); memcpy(c->d + oo % CH, b + i, l); if (c->sym) for (u64 k = 0; k < l; k++) c->sym[oo % CH + k] = nullptr; } i += l; } }
  void setC(u64 dst, const Slot& v, u64 n) {
    if (!n) return; u64 off; Obj* d = checkC(dst, n, "memset", off, true);
    if (n > 1u << 30) { if (v.e || (u8)v.v) err("memset of " + std::to_string(n) + " bytes"); if (d->big && d->bch.empty()) return; }
    if (!v.e) { u8 b = (u8)v.v; for (u64 i = 0; i < n;) { u64 oo = off + i; u64 l = std::min<u64>(CH - oo % CH, n - i);
        if (!b && !d->at(oo / CH)) { if (d->big && l == CH) { i += l; continue; } i += l; continue; }
        if (!b && l == CH) { Chunk* old = d->at(oo / CH); if (d->big) d->bch.erase(oo / CH); else d->ch[oo / CH] = nullptr; chUnref(old); i += l; continue; }
        Chunk* c = d->wr(oo / CH); memset(c->d + oo % CH, b, l); if (c->sym) for (u64 k = 0; k < l; k++) c->sym[oo % CH + k] = nullptr; i += l; } }
    else { E e = mkExtract(toE(v, 8), 0, 8); for (u64 i = 0; i < n; i++) setByte(d, off + i, e); }
  }
  // memcpy / memset with symbolic destination, source or length
  void copySym(E dst, E src /*null: memset*/, E val, E len) {
    u64 maxLen, minLen; if (isC(len)) minLen = maxLen = (u64)len->val; else range(len, minLen, maxLen);
    if (maxLen == 0) return;
    if (maxLen > 4096) { u64 v = (u64)concretize(len, "copy length"); maxLen = minLen = v; len = mkConst(v, 64); if (!v) return; }
    if (minLen == 0 && !isC(len)) { // length zero is legal at any address: split it off
      if (!branch(mkNot(mkEq(len, mkConst(0, 64))))) return; minLen = 1; }
    u64 did, dlo, dhi, sid = 0, slo = 0, shi = 0; E doff, soff = nullptr; Obj *d, *s = nullptr;
    if (isC(dst) && isC(len)) { u64 o; checkC((u64)dst->val, maxLen, "copy write", o, true); }
    auto res = [&](E a, u64& id, E& off, u64& lo, u64& hi, const char* what, bool wr) { Obj* o;
      if (isC(a)) { u64 oo; o = checkC((u64)a->val, 1, what, oo, wr); id = (u64)a->val >> OSHIFT; lo = hi = oo; off = mkConst(oo, 64); } else o = resolve(a, 1, id, off, lo, hi, what, wr);
      E end = mkBin(K::ADD, off, len); E bad = mkUlt(mkConst(o->size, 64), end); Model m; if (!isFalse(bad) && query(bad, &m) == Res::SAT) { violation(*S, m, "memory", std::string("out-of-bounds ") + what, where()); addPc(S, mkNot(bad)); if (evalExpr(mkNot(bad), S->model) != 1) throw Stop{2, "oob"}; }
      return o; };
    d = res(dst, did, doff, dlo, dhi, "copy write", true); if (d->ro) memErr(0, 1, "copy to constant");
    if (src) { s = res(src, sid, soff, slo, shi, "copy read", false); d = S->wget(did); s = object(sid); }
    if (dhi - dlo + maxLen > MAXCAND || shi - slo + maxLen > MAXCAND) { u64 v = (u64)concretize(len, "copy length"); (void)v; err("symbolic copy window too wide"); }
    std::vector<E> win; if (src) for (u64 k = slo; k < std::min(shi + maxLen, s->size); k++) win.push_back(byteE(s, k));
    E delta = src ? mkBin(K::SUB, soff, doff) : nullptr; std::vector<std::pair<u64, E>> upd;
    for (u64 p = dlo; p < std::min(dhi + maxLen, d->size); p++) {
      E P = mkConst(p, 64); E in = mkAnd1(mkUle(doff, P), mkUlt(P, mkBin(K::ADD, doff, len))); E nv;
      if (!src) nv = val;
      else { E idx = mkBin(K::ADD, delta, P); if (isC(idx)) { u64 k = (u64)idx->val; if (k < slo || k >= slo + win.size()) continue; nv = win[k - slo]; }
        else { E def = win[0]; nv = def; for (size_t k = win.size(); k-- > 0;) if (win[k] != def) nv = mkIte(mkEq(idx, mkConst(slo + k, 64)), win[k], nv); } }
      upd.push_back({p, mkIte(in, nv, byteE(d, p))});
    }
    for (auto& u : upd) setByte(d, u.first, u.second);
  }
  // ---- calls
  void pushFrame(Func* f, int32_t retDst, bool discard) {
    if (!f->translated) irTranslate(f); f->entered++;
    Frame fr{f, 0, (u32)S->regs.size(), (u32)S->allocas.size(), retDst, discard}; S->regs.resize(S->regs.size() + f->nslots, Slot{0, nullptr}); S->frames.push_back(fr); R = S->regs.data() + fr.base;
    if (S->frames.size() > 2000) err("native call depth");
  }
  std::string cstr(u64 p, u64 n) { std::string r; u64 off; Obj* o = checkC(p, n, "string", off, false); for (u64 i = 0; i < n; i++) { E s; r += (char)rawByte(o, off + i, &s); } return r; }
  u64 ld(u64 p, unsigned n) { u64 off; Obj* o = checkC(p, n, "load", off, false); Slot s = loadC(o, off, n * 8); if (s.e) err("symbolic pointer structure"); return s.v; }
  std::string panicLoc(CallInfo& ci) {
    for (int i = (int)ci.args.size() - 1; i >= 0; i--) { const Slot& s = get(ci.args[i]); if (s.e || ci.argw[i] != 64) continue; u64 id = s.v >> OSHIFT; if (id < GLOBAL_OBJ0 || id - GLOBAL_OBJ0 >= gGlobals.size()) continue; Obj* o = object(id); u64 off = (s.v & ((1ull << OSHIFT) - 1)) - OBASE; if (!o || off + 24 > o->size) continue;
      u64 fp = ld(s.v, 8), fl = ld(s.v + 8, 8), ln = ld(s.v + 16, 4); if (fl > 3 && fl < 300) { u64 fid = fp >> OSHIFT; Obj* fo = object(fid); if (fo && fid - GLOBAL_OBJ0 < gGlobals.size() && (fp & ((1ull << OSHIFT) - 1)) - OBASE + fl <= fo->size) { std::string n = cstr(fp, fl); if (n.find(".rs") != std::string::npos) return n + ":" + std::to_string(ln); } } }
    return where();
  }
  std::string demangle(const std::string& n) { // good enough: last path components of legacy / v0 names
    return n; }
  void doExt(Func* f, CallInfo& ci) {
    auto A = [&](unsigned i) -> const Slot& { return get(ci.args[i]); };
    auto AC = [&](unsigned i, const char* w) { return conc(ci.args[i], ci.argw[i], w); };
    auto huge = [&](unsigned i) { const Slot& s = A(i); return s.e ? branch(mkUlt(mkConst(HUGE_ALLOC, 64), toE(s, 64))) : s.v > HUGE_ALLOC; };
    auto ret = [&](u64 v) { if (ci.nret) R[ci.dst] = {v, nullptr}; };
    switch (f->ext) {
      case X_MALLOC: { if (huge(0)) { ret(0); break; } u64 n = AC(0, "malloc size"); if (n > HUGE_ALLOC) { ret(0); break; } ret(S->alloc(n, 0)); break; }
      case X_CALLOC: { if (huge(0)) { ret(0); break; } u64 a = AC(0, "calloc size"), b = AC(1, "calloc size"); if ((u128)a * b > HUGE_ALLOC) { ret(0); break; } ret(S->alloc(a * b, 0)); break; }
      case X_REALLOC: { if (huge(1)) { ret(0); break; } u64 p = AC(0, "realloc pointer"), n = AC(1, "realloc size"); if (n > HUGE_ALLOC) { ret(0); break; } u64 q = S->alloc(n, 0); if (p) { Obj* o = object(p >> OSHIFT); if (!o) memErr(p, 1, "realloc"); copyC(q, p, std::min(n, o->size)); S->release(p >> OSHIFT); } ret(q); break; }
      case X_FREE: { u64 p = AC(0, "free pointer"); if (p) { Obj* o = object(p >> OSHIFT); if (!o || (p & ((1ull << OSHIFT) - 1)) != OBASE || o->kind != 0) memErr(p, 1, "free"); S->release(p >> OSHIFT); } break; }
      case X_MEMALIGN: { if (huge(2)) { ret(12); break; } u64 pp = AC(0, "p"); u64 n = AC(2, "memalign size"); if (n > HUGE_ALLOC) { ret(12); break; } u64 q = S->alloc(n, 0); u64 off; Obj* o = checkC(pp, 8, "memalign", off, true); storeC(o, off, 64, {q, nullptr}); ret(0); break; }
      case X_MEMCMP: { u64 n = AC(2, "memcmp length"); if (!n) { ret(0); break; } u64 a = AC(0, "memcmp a"), b = AC(1, "memcmp b"), ao, bo; Obj* oa = checkC(a, n, "memcmp", ao, false); Obj* ob = checkC(b, n, "memcmp", bo, false); bool sym = false; int r = 0; u64 i = 0;
        for (; i < n; i++) { E sa, sb; u8 x = rawByte(oa, ao + i, &sa), y = rawByte(ob, bo + i, &sb); if (sa || sb) { if (sa == sb) continue; sym = true; break; } if (x != y) { r = x < y ? -1 : 1; break; } }
        if (!sym) { ret((u32)r); break; }
        if (n - i > 4096) err("long symbolic memcmp");
        if (f->name == "bcmp") { E eq = mkConst(1, 1); for (; i < n; i++) eq = mkAnd1(eq, mkEq(byteE(oa, ao + i), byteE(ob, bo + i))); setE(ci.dst, mkIte(eq, mkConst(0, 32), mkConst(1, 32))); }
        else { E res = mkConst(0, 32); for (u64 k = n; k-- > i;) { E x = byteE(oa, ao + k), y = byteE(ob, bo + k); res = mkIte(mkEq(x, y), res, mkIte(mkUlt(x, y), mkConst(~0u, 32), mkConst(1, 32))); } setE(ci.dst, res); }
        break; }
      case X_MEMCPY: { Slot d = A(0); doCopy(A(0), A(1), A(2), 64); R[ci.dst] = d; break; }
      case X_MEMSET: { Slot d = A(0); Slot v = A(1); if (v.e) v = mkS(mkExtract(toE(v, ci.argw[1]), 0, 8)); doSet(A(0), v, A(2), 64); R[ci.dst] = d; break; }
      case X_STRLEN: { u64 p = AC(0, "strlen"); u64 n = 0; while (ld(p + n, 1)) n++; ret(n); break; }
      case X_ZERO: ret(0); break; case X_ONE: ret(1); break; case X_NEG1: ret(~0ull); break; case X_PTHREAD_SELF: ret(0x1234); break;
      case X_SYSCONF: ret(AC(0, "sysconf") == 30 ? 4096 : 1); break;
      case X_KEYCREATE: { static u32 k = 1; u64 p = AC(0, "key"), off; Obj* o = checkC(p, 4, "key", off, true); storeC(o, off, 32, {k++, nullptr}); ret(0); break; }
      case X_ABORT: violation(*S, S->model, "abort", "abort() called", where()); throw Stop{2, "abort"};
      case X_WRITE: ret(AC(f->name == "write" ? 2 : 2, "write length")); break;
      case X_ERRNO: { static u64 key = 0; if (!key || !object(key >> OSHIFT)) key = S->alloc(8, 0); ret(key); break; }
      case X_CLOCK: { u64 p = AC(1, "timespec"), off; Obj* o = checkC(p, 16, "timespec", off, true);
        if (S->symClock) { // arbitrary non-decreasing clock, within 255 s
          E sv = newVar("clock_s", 8), nv = newVar("clock_n", 32), n = mkIte(mkUlt(nv, mkConst(1000000000, 32)), nv, mkConst(0, 32));
          E ps = S->ckS ? S->ckS : mkConst(0, 8), pn = S->ckN ? S->ckN : mkConst(0, 32), later = mkUlt(ps, sv);
          S->ckS = mkIte(later, sv, ps); S->ckN = mkIte(mkBin(K::AND, mkNot(later), mkUlt(n, pn)), pn, n);
          storeC(o, off, 64, mkS(mkBin(K::ADD, mkZext(S->ckS, 64), mkConst(1000, 64)))); storeC(o, off + 8, 64, mkS(mkZext(S->ckN, 64))); }
        else { storeC(o, off, 64, {1000 + S->clock / 1000000000, nullptr}); storeC(o, off + 8, 64, {S->clock % 1000000000, nullptr}); S->clock += 1000; }
        ret(0); break; }
      case X_SYMCLOCK: S->symClock = AC(0, "clock"); S->ckS = S->ckN = nullptr; break;
      case X_GETRANDOM: { u64 p = AC(0, "p"), n = AC(1, "n"); setC(p, {0x5a, nullptr}, n); ret(n); break; }
      case X_SYSCALL: { u64 nr = AC(0, "nr"); if (nr == 318) { u64 p = AC(1, "p"), n = AC(2, "n"); setC(p, {0x5a, nullptr}, n); ret(n); } else if (nr == 202) ret(0); else err("syscall " + std::to_string(nr)); break; }
      // thread-local storage of a new thread: keep the bytes of the current one in a buffer and start from the initial content / put them back
      case X_TLSSAVE: { u64 p = AC(0, "buffer"), n = 0; for (u64 k = 0; k < gGlobals.size(); k++) { GlobalDef& g = gGlobals[k]; if (!g.tls || !g.size || g.ro) continue; if (p) { copyC(p + n, g.addr, g.size); std::vector<u8> b; irInitGlobal(g, b); u64 off; Obj* o = checkC(g.addr, g.size, "tls", off, true); for (u64 i = 0; i < g.size; i++) setByte(o, off + i, mkConst(i < b.size() ? b[i] : 0, 8)); } n += g.size; } ret(n); break; }
      case X_TLSLOAD: { u64 p = AC(0, "buffer"); for (u64 k = 0; k < gGlobals.size(); k++) { GlobalDef& g = gGlobals[k]; if (!g.tls || !g.size || g.ro) continue; copyC(g.addr, p, g.size); p += g.size; } ret(0); break; }
      case X_FMOD: { E a = toE(A(0), 64), b = toE(A(1), 64); if (!isC(a) || !isC(b)) err("symbolic fmod"); setE(ci.dst, mkF(K::FREM, 64, 0, a, b)); break; }
      case X_FMODF: { E a = toE(A(0), 32), b = toE(A(1), 32); if (!isC(a) || !isC(b)) err("symbolic fmodf"); setE(ci.dst, mkF(K::FREM, 32, 0, a, b)); break; }
      case X_FMA: setE(ci.dst, mkF(K::FMA, 64, 0, toE(A(0), 64), toE(A(1), 64), toE(A(2), 64))); break;
      case X_FMAF: setE(ci.dst, mkF(K::FMA, 32, 0, toE(A(0), 32), toE(A(1), 32), toE(A(2), 32))); break;
      // ---- harness intrinsics
      case X_SYMVAR: { std::string n = cstr(AC(0, "name"), AC(1, "name")); unsigned w = (unsigned)AC(2, "width"); E v = newVar(n, w); setE(ci.dst, mkZext(v, 64)); break; }
      case X_ASSUME: { E c = mkExtract(toE(A(0), ci.argw[0]), 0, 1); c = simp(c); if (isC(c)) { if (!c->val) throw Stop{3, "assume"}; break; } if (evalExpr(c, S->model) != 1) { Model m; if (query(c, &m) != Res::SAT) throw Stop{3, "assume"}; S->model = m; } addPc(S, c); break; }
      case X_CHECK: { std::string label = cstr(AC(1, "label"), AC(2, "label")); E c = simp(mkExtract(toE(A(0), ci.argw[0]), 0, 1)); gChecks++; if (isC(c)) { if (c->val) gChecksTrivial++; else { violation(*S, S->model, "check", label, ""); throw Stop{2, label}; } break; }
        Model m; if (query(mkNot(c), &m) == Res::SAT) { violation(*S, m, "check", label, ""); if (query(c, &m) != Res::SAT) throw Stop{2, label}; S->model = m; addPc(S, c); } else addPc(S, c); break; }
      case X_COVER: { std::string label = cstr(AC(0, "label"), AC(1, "label")); if (gCovers.insert(label).second) witness(*S, label); break; }
      case X_NOTE: S->note = cstr(AC(0, "label"), AC(1, "label")); break;
      case X_CHOOSE: { // one path per value, no query: the variable is new
        std::string n = cstr(AC(0, "name"), AC(1, "name")); u64 k = AC(2, "choices"); E v = newVar(n, 32); u32 id = S->inputs.back().var; if (!k) throw Stop{3, "assume"};
        for (u64 i = 1; i < k; i++) { auto t = fork(); t->model.set(id, i); addPc(t.get(), mkEq(v, mkConst(i, 32))); Frame& f = t->frames.back(); t->regs[f.base + ci.dst] = {i, nullptr}; f.pc++; work.push_back(std::move(t)); }
        S->model.set(id, 0); addPc(S, mkEq(v, mkConst(0, 32))); ret(0); break; }
      case X_CONC: { const Slot& a = A(0); u64 v = !a.e ? a.v : isC(a.e) ? (u64)a.e->val : (u64)concretize(a.e, "sym_concretize", 1u << 30); ret(v); break; }
      case X_ISSYM: ret(A(0).e && !isC(simp(A(0).e))); break;
      case X_ITE: { E c = mkExtract(toE(A(0), ci.argw[0]), 0, 1); setE(ci.dst, mkIte(c, toE(A(1), 64), toE(A(2), 64))); break; }
      case X_TRACE: { std::string l = cstr(AC(0, "label"), AC(1, "label")); const Slot& s = A(2); fprintf(stderr, "[trace] %s = %s\n", l.c_str(), s.e ? exprStr(s.e, 12).c_str() : std::to_string(s.v).c_str()); break; }
      case X_EXITPATH: throw Stop{0, ""};
      default: err("external function " + f->name);
    }
  }
  E newVar(const std::string& n, unsigned w) { // variables are shared between paths by (name, occurrence)
    static std::unordered_map<std::string, E> reuse; u32 occ = 0; for (auto& i : S->inputs) if (i.name == n) occ++; std::string key = n + "#" + std::to_string(occ) + ":" + std::to_string(w); auto it = reuse.find(key); E v; if (it != reuse.end()) v = it->second; else { v = mkVar(n, w); reuse[key] = v; }
    S->inputs.push_back({n, v->aux, w}); return v; }
  void doCopy(Slot d, Slot s, Slot n, unsigned lw) {
    auto k = [&](Slot& x, unsigned w) { if (x.e) { E e = simp(x.e); if (isC(e)) x = {(u64)e->val, nullptr}; } (void)w; }; k(d, 64); k(s, 64); k(n, lw);
    if (!d.e && !s.e && !n.e) copyC(d.v, s.v, n.v); else copySym(toE(d, 64), toE(s, 64), nullptr, mkZext(toE(n, lw), 64)); }
  void doSet(Slot d, Slot v, Slot n, unsigned lw) {
    auto k = [&](Slot& x) { if (x.e) { E e = simp(x.e); if (isC(e)) x = {(u64)e->val, nullptr}; } }; k(d); k(n);
    if (!d.e && !n.e) setC(d.v, v, n.v); else copySym(toE(d, 64), nullptr, toE(v, 8), mkZext(toE(n, lw), 64)); }
  void doRet(const std::vector<int32_t>& vals) {
    Frame fr = S->frames.back(); Slot tmp[64]; size_t n = vals.size(); if (n > 64) err("wide return"); for (size_t i = 0; i < n; i++) tmp[i] = get(vals[i]);
    for (size_t i = fr.allocaBase; i < S->allocas.size(); i++) S->release(S->allocas[i]);
    S->allocas.resize(fr.allocaBase); S->regs.resize(fr.base); S->frames.pop_back(); if (S->frames.empty()) throw Stop{0, ""};
    Frame& c = S->frames.back(); R = S->regs.data() + c.base; if (fr.retDst >= 0) for (size_t i = 0; i < n; i++) R[fr.retDst + i] = tmp[i]; c.pc++;
  }
  void jump(Frame& fr, u32 ei) {
    Edge& e = fr.f->edges[ei]; size_t n = e.moves.size();
    if (n == 1) R[e.moves[0].first] = get(e.moves[0].second);
    else if (n) { Slot buf[32]; std::vector<Slot> big; Slot* t = buf; if (n > 32) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(e.moves[i].second); for (size_t i = 0; i < n; i++) R[e.moves[i].first] = t[i]; }
    fr.pc = e.target;
  }
  static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) { switch (p) { case 32: return a == b; case 33: return a != b; case 34: return a > b; case 35: return a >= b; case 36: return a < b; case 37: return a <= b; } int64_t x = (int64_t)(a << (64 - w)) >> (64 - w), y = (int64_t)(b << (64 - w)) >> (64 - w); switch (p) { case 38: return x > y; case 39: return x >= y; case 40: return x < y; default: return x <= y; } }
  static E icmpE(unsigned p, E a, E b) { switch (p) { case 32: return mkEq(a, b); case 33: return mkNot(mkEq(a, b)); case 34: return mkUlt(b, a); case 35: return mkUle(b, a); case 36: return mkUlt(a, b); case 37: return mkUle(a, b); case 38: return mkSlt(b, a); case 39: return mkSle(b, a); case 40: return mkSlt(a, b); default: return mkSle(a, b); } }
  void symOp(const Inst& I);
  void run(State* s);
};
void Exec::symOp(const Inst& I) {
  unsigned w = I.w, w2 = I.w2 ? I.w2 : I.w;
  auto a = [&]() { return ge(I.a, w2); }; auto b = [&]() { return ge(I.b, w2); };
  auto bin = [&](K k) { setE(I.dst, mkBin(k, ge(I.a, w), ge(I.b, w))); };
  switch (I.op) {
    case I_ADD: return bin(K::ADD); case I_SUB: return bin(K::SUB); case I_MUL: return bin(K::MUL); case I_AND: return bin(K::AND); case I_OR: return bin(K::OR); case I_XOR: return bin(K::XOR);
    case I_SHL: return bin(K::SHL); case I_LSHR: return bin(K::LSHR); case I_ASHR: return bin(K::ASHR); case I_UDIV: return bin(K::UDIV); case I_SDIV: return bin(K::SDIV); case I_UREM: return bin(K::UREM); case I_SREM: return bin(K::SREM);
    case I_ICMP: return setE(I.dst, icmpE(I.imm, a(), b()));
    case I_FCMP: return setE(I.dst, fFCmp(I.imm, a(), b()));
    case I_ZEXT: return setE(I.dst, mkZext(a(), w)); case I_SEXT: return setE(I.dst, mkSext(a(), w)); case I_TRUNC: return setE(I.dst, mkExtract(a(), 0, w));
    case I_CONCAT: return setE(I.dst, mkConcat(ge(I.a, w - w2), ge(I.b, w2)));
    case I_EXTRACT: return setE(I.dst, mkExtract(a(), I.imm, w));
    case I_CTLZ: return setE(I.dst, mkCtlz(ge(I.a, w))); case I_CTTZ: return setE(I.dst, mkCttz(ge(I.a, w))); case I_CTPOP: return setE(I.dst, mkCtpop(ge(I.a, w))); case I_BSWAP: return setE(I.dst, mkBswap(ge(I.a, w))); case I_BITREV: return setE(I.dst, mkBitrev(ge(I.a, w)));
    case I_FSHL: return setE(I.dst, mkFsh(true, ge(I.a, w), ge(I.b, w), ge(I.c, w))); case I_FSHR: return setE(I.dst, mkFsh(false, ge(I.a, w), ge(I.b, w), ge(I.c, w)));
    case I_UMIN: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkIte(mkUlt(x, y), x, y)); } case I_UMAX: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkIte(mkUlt(x, y), y, x)); }
    case I_SMIN: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkIte(mkSlt(x, y), x, y)); } case I_SMAX: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkIte(mkSlt(x, y), y, x)); }
    case I_ABS: { E x = ge(I.a, w); return setE(I.dst, mkIte(mkExtract(x, w - 1, 1), mkBin(K::SUB, mkConst(0, w), x), x)); }
    case I_UADDSAT: { E x = ge(I.a, w), y = ge(I.b, w), s = mkBin(K::ADD, x, y); return setE(I.dst, mkIte(mkUlt(s, x), mkConst(maskw(w), w), s)); }
    case I_USUBSAT: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkIte(mkUlt(x, y), mkConst(0, w), mkBin(K::SUB, x, y))); }
    case I_SADDSAT: case I_SSUBSAT: { E x = ge(I.a, w), y = ge(I.b, w); bool ad = I.op == I_SADDSAT; E s = mkBin(ad ? K::ADD : K::SUB, x, y), ov = ad ? saddOverflow(x, y) : ssubOverflow(x, y); E sat = mkIte(mkExtract(x, w - 1, 1), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w)); return setE(I.dst, mkIte(ov, sat, s)); }
    case I_UADDO: { E x = ge(I.a, w), y = ge(I.b, w); return setE(I.dst, mkUlt(mkBin(K::ADD, x, y), x)); } case I_USUBO: return setE(I.dst, mkUlt(ge(I.a, w), ge(I.b, w)));
    case I_UMULO: return setE(I.dst, umulOverflow(ge(I.a, w), ge(I.b, w))); case I_SADDO: return setE(I.dst, saddOverflow(ge(I.a, w), ge(I.b, w))); case I_SSUBO: return setE(I.dst, ssubOverflow(ge(I.a, w), ge(I.b, w))); case I_SMULO: return setE(I.dst, smulOverflow(ge(I.a, w), ge(I.b, w)));
    case I_FPCLASS: return setE(I.dst, mkIsFpClass(a(), I.imm)); case I_FMIN: return setE(I.dst, mkFMin(ge(I.a, w), ge(I.b, w), I.imm));
    case I_UCMP: { E x = a(), y = b(); return setE(I.dst, mkIte(mkUlt(x, y), mkConst(maskw(w), w), mkIte(mkEq(x, y), mkConst(0, w), mkConst(1, w)))); }
    case I_SCMP: { E x = a(), y = b(); return setE(I.dst, mkIte(mkSlt(x, y), mkConst(maskw(w), w), mkIte(mkEq(x, y), mkConst(0, w), mkConst(1, w)))); }
    case I_FOP: { K k = (K)(I.imm & 255); int n = k == K::FMA ? 3 : (k >= K::FADD && k <= K::FREM) ? 2 : 1; return setE(I.dst, mkF(k, w, I.imm >> 8, a(), n > 1 ? b() : nullptr, n > 2 ? ge(I.c, w2) : nullptr)); }
    default: err("symOp");
  }
}
static inline u64 mk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
void Exec::run(State* st) {
  S = st; R = S->regs.data() + S->frames.back().base; u64 tick = 0;
  for (;;) {
    Frame* fr = &S->frames.back(); Func* F = fr->f; const Inst& I = F->code[fr->pc];
    gInstr++; if ((++tick & 0xfffff) == 0) { S->icount += 0x100000; if (S->icount > gMaxInstrPath) { violation(*S, S->model, "hang", "no end after the instruction limit of one path", where()); throw Stop{2, "hang"}; } if (now() > gDeadline) err("time limit"); }
#define CC(i) (get(i))
#define BINC(opr) { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {(u64)(opr) & mk(I.w), nullptr}; else symOp(I); fr->pc++; break; }
    switch (I.op) {
      case I_MOV: R[I.dst] = CC(I.a); fr->pc++; break;
      case I_ADD: BINC(x.v + y.v) case I_SUB: BINC(x.v - y.v) case I_MUL: BINC(x.v * y.v) case I_AND: BINC(x.v & y.v) case I_OR: BINC(x.v | y.v) case I_XOR: BINC(x.v ^ y.v)
      case I_SHL: BINC(y.v >= I.w ? 0 : x.v << y.v) case I_LSHR: BINC(y.v >= I.w ? 0 : x.v >> y.v)
      case I_ASHR: BINC(((int64_t)(x.v << (64 - I.w)) >> (64 - I.w)) >> (y.v >= I.w ? I.w - 1 : y.v))
      case I_UDIV: BINC(y.v ? x.v / y.v : ~0ull) case I_UREM: BINC(y.v ? x.v % y.v : x.v)
      case I_SDIV: case I_SREM: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) { int64_t p = (int64_t)(x.v << (64 - I.w)) >> (64 - I.w), q = (int64_t)(y.v << (64 - I.w)) >> (64 - I.w); u64 r; if (!q) r = 0; else if (q == -1) r = I.op == I_SDIV ? -(u64)p : 0; else r = I.op == I_SDIV ? p / q : p % q; R[I.dst] = {r & mk(I.w), nullptr}; } else symOp(I); fr->pc++; break; }
      case I_ICMP: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {icmpC(I.imm, x.v, y.v, I.w2), nullptr}; else symOp(I); fr->pc++; break; }
      case I_ZEXT: { const Slot& x = CC(I.a); if (!x.e && I.w <= 64) R[I.dst] = x; else setE(I.dst, mkZext(toE(x, I.w2), I.w)); fr->pc++; break; }
      case I_SEXT: { const Slot& x = CC(I.a); if (!x.e && I.w <= 64) R[I.dst] = {(u64)((int64_t)(x.v << (64 - I.w2)) >> (64 - I.w2)) & mk(I.w), nullptr}; else setE(I.dst, mkSext(toE(x, I.w2), I.w)); fr->pc++; break; }
      case I_TRUNC: { const Slot& x = CC(I.a); if (!x.e) R[I.dst] = {x.v & mk(I.w), nullptr}; else setE(I.dst, mkExtract(x.e, 0, I.w)); fr->pc++; break; }
      case I_SELECT: { const Slot& c = CC(I.a); if (!c.e) R[I.dst] = c.v ? CC(I.b) : CC(I.c); else setE(I.dst, mkIte(simp(c.e), ge(I.b, I.w), ge(I.c, I.w))); fr->pc++; break; }
      case I_LOAD: {
        const Slot& p = CC(I.a); unsigned n = (I.w + 7) / 8;
        if (p.e) { E ad = simp(p.e); if (!isC(ad)) { Slot r = loadSym(mkBin(K::ADD, ad, mkConst(I.imm, 64)), I.w); R[I.dst] = r; fr = &S->frames.back(); fr->pc++; break; } u64 off; Obj* o = checkC((u64)ad->val + I.imm, n, "load", off, false); R[I.dst] = loadC(o, off, I.w); fr->pc++; break; }
        u64 a = p.v + I.imm; u64 id = a >> OSHIFT, off = (a & ((1ull << OSHIFT) - 1)) - OBASE; Obj* o = S->get(id); if (!o) o = object(id); if (!o || off + n > o->size || off > o->size) memErr(a, n, "load");
        R[I.dst] = loadC(o, off, I.w); fr->pc++; break; }
      case I_STORE: {
        const Slot& p = CC(I.a); unsigned n = (I.w + 7) / 8;
        if (p.e) { E ad = simp(p.e); if (!isC(ad)) { storeSym(mkBin(K::ADD, ad, mkConst(I.imm, 64)), I.w, CC(I.b)); fr->pc++; break; } u64 off; Obj* o = checkC((u64)ad->val + I.imm, n, "store", off, true); storeC(o, off, I.w, CC(I.b)); fr->pc++; break; }
        u64 a = p.v + I.imm; u64 off; Obj* o = checkC(a, n, "store", off, true); storeC(o, off, I.w, CC(I.b)); fr->pc++; break; }
      case I_PTRADD: { const Slot& x = CC(I.a); if (!x.e) R[I.dst] = {x.v + I.imm, nullptr}; else setE(I.dst, mkBin(K::ADD, x.e, mkConst(I.imm, 64))); fr->pc++; break; }
      case I_PTRADDX: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {x.v + (u64)((int64_t)(y.v << (64 - I.w2)) >> (64 - I.w2)) * I.imm, nullptr}; else setE(I.dst, mkBin(K::ADD, toE(x, 64), mkBin(K::MUL, mkSext(toE(y, I.w2), 64), mkConst(I.imm, 64)))); fr->pc++; break; }
      case I_ALLOCA: { u64 a = S->alloc(I.imm, 1); S->allocas.push_back(a >> OSHIFT); R[I.dst] = {a, nullptr}; fr->pc++; break; }
      case I_BR: jump(*fr, I.imm); break;
      case I_CONDBR: { const Slot& c = CC(I.a); bool t; if (!c.e) t = c.v; else { t = branch(c.e); fr = &S->frames.back(); } jump(*fr, t ? (u32)I.imm : (u32)(I.imm >> 32)); break; }
      case I_SWITCH: {
        SwitchInfo& sw = F->switches[I.imm]; const Slot& c = CC(I.a); E ce = c.e ? simp(c.e) : nullptr;
        if (!ce || isC(ce)) { u128 v = ce ? ce->val : c.v; auto it = std::lower_bound(sw.cases.begin(), sw.cases.end(), v, [](auto& p, u128 x) { return p.first < x; }); jump(*fr, it != sw.cases.end() && it->first == v ? it->second : sw.def); break; }
        // an opcode fetched through a symbolic program counter: fork over the counter, not the opcode
        if (sw.cases.size() >= 16) { E b = ce; while (b->op == K::ZEXT) b = b->ch[0]; auto it = loadAddr.find(b); if (it != loadAddr.end()) { concretize(pivot(it->second), "program counter"); concretize(it->second, "program counter"); u128 v = evalExpr(ce, S->model); S->known[ce] = mkConst(v, ce->width); S->known[b] = mkConst(v, b->width); auto k = std::lower_bound(sw.cases.begin(), sw.cases.end(), v, [](auto& p, u128 x) { return p.first < x; }); jump(*fr, k != sw.cases.end() && k->first == v ? k->second : sw.def); break; } }
        // symbolic: pick the target of the current model, queue the rest
        u128 v = evalExpr(ce, S->model); auto it = std::lower_bound(sw.cases.begin(), sw.cases.end(), v, [](auto& p, u128 x) { return p.first < x; }); bool isDef = !(it != sw.cases.end() && it->first == v); u32 tgt = isDef ? sw.def : it->second; u32 tt = F->edges[tgt].target;
        auto same = [&](u32 e) { return F->edges[e].target == tt && F->edges[e].moves == F->edges[tgt].moves; };
        E cond = mkConst(0, 1); if (!isDef) { for (auto& k : sw.cases) if (same(k.second)) cond = mkOr1(cond, mkEq(ce, mkConst(k.first, I.w))); } else { E any = mkConst(0, 1); for (auto& k : sw.cases) any = mkOr1(any, mkEq(ce, mkConst(k.first, I.w))); cond = mkNot(any); }
        Model m; if (query(mkNot(cond), &m) == Res::SAT) { auto n = fork(); addPc(n.get(), mkNot(cond)); n->model = m; work.push_back(std::move(n)); }
        addPc(S, cond); jump(*fr, tgt); break; }
      case I_CALL: case I_ICALL: {
        CallInfo& ci = F->calls[I.imm]; Func* g = ci.callee;
        if (!g) { u64 p = conc(ci.calleePtr, 64, "call target"); g = irFuncByAddr(p); if (!g) { char b[80]; snprintf(b, 80, "call through bad pointer %llx", (unsigned long long)p); violation(*S, S->model, "memory", b, where()); throw Stop{2, b}; } fr = &S->frames.back(); }
        if (g->panicKind) { std::string loc = panicLoc(ci); violation(*S, S->model, "panic", "host panic", loc); throw Stop{2, "panic"}; }
        if (g->ext > 0) { doExt(g, ci); S->frames.back().pc++; break; }
        if (g->isDecl) err("external function " + g->name);
        Slot tmp[64]; size_t n = ci.args.size(); if (n > 64) err("too many args"); for (size_t i = 0; i < n; i++) tmp[i] = get(ci.args[i]);
        pushFrame(g, ci.dst, false); if (n < g->nargs) err("arg count"); for (size_t i = 0; i < g->nargs; i++) R[i] = tmp[i];
        break; }
      case I_RET: doRet(F->lists[I.imm]); break;
      case I_UNREACHABLE: violation(*S, S->model, "unreachable", "reached code the compiler proved unreachable (undefined behaviour)", where()); throw Stop{2, "unreachable"};
      case I_TRAP: violation(*S, S->model, "panic", "llvm.trap", where()); throw Stop{2, "trap"};
      case I_BAD: err(gLocs[I.imm]);
      case I_ASSUME: fr->pc++; break;
      case I_MEMCPY: doCopy(CC(I.a), CC(I.b), CC(I.c), I.w2); S->frames.back().pc++; break;
      case I_MEMSET: doSet(CC(I.a), CC(I.b), CC(I.c), I.w2); S->frames.back().pc++; break;
      case I_VECIDX: { auto& l = F->lists[I.imm]; const Slot& x = CC(I.a); if (!x.e) R[I.dst] = CC(l[x.v % l.size()]); else { E r = ge(l.back(), I.w); for (size_t k = l.size() - 1; k-- > 0;) r = mkIte(mkEq(x.e, mkConst(k, I.w2)), ge(l[k], I.w), r); setE(I.dst, r); } fr->pc++; break; }
      case I_CTLZ: { const Slot& x = CC(I.a); if (!x.e) R[I.dst] = {x.v ? (u64)__builtin_clzll(x.v) - (64 - I.w) : I.w, nullptr}; else symOp(I); fr->pc++; break; }
      case I_CTTZ: { const Slot& x = CC(I.a); if (!x.e) R[I.dst] = {x.v ? (u64)__builtin_ctzll(x.v) : I.w, nullptr}; else symOp(I); fr->pc++; break; }
      case I_UADDO: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {(u64)(((u128)x.v + y.v) >> I.w) & 1, nullptr}; else symOp(I); fr->pc++; break; }
      case I_USUBO: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {x.v < y.v, nullptr}; else symOp(I); fr->pc++; break; }
      case I_UMULO: { const Slot &x = CC(I.a), &y = CC(I.b); if (!x.e && !y.e) R[I.dst] = {((u128)x.v * y.v >> I.w) != 0, nullptr}; else symOp(I); fr->pc++; break; }
      case I_UMIN: BINC(x.v < y.v ? x.v : y.v) case I_UMAX: BINC(x.v < y.v ? y.v : x.v)
      case I_USUBSAT: BINC(x.v < y.v ? 0 : x.v - y.v)
      default: symOp(I); fr->pc++; break;
    }
  }
}
// ---------------------------------------------------------------- driver
static void stats(double t0, const char* status) {
  std::string fns; u64 nf = 0; for (Func* f : gFuncs) if (f->entered) { if (nf++) fns += ","; fns += jstr(shortName(f->name)); }
  std::string cov; for (auto& c : gCovers) { if (!cov.empty()) cov += ","; cov += jstr(c); }
  fprintf(gOut, "{\"kind\":\"stats\",\"harness\":%s,\"status\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"pruned\":%llu,\"instr\":%llu,\"checks\":%llu,\"checks_trivial\":%llu,\"violations\":%llu,\"errors\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"abstract_unsat\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%zu,\"concretize\":%llu,\"covers\":[%s],\"functions\":[%s]}\n", jstr(gHarness).c_str(), status, (unsigned long long)gPaths, (unsigned long long)gForks, (unsigned long long)gPruned, (unsigned long long)gInstr, (unsigned long long)gChecks, (unsigned long long)gChecksTrivial, (unsigned long long)gViol, (unsigned long long)gErrors, (unsigned long long)sstats.queries, (unsigned long long)sstats.sat, (unsigned long long)sstats.unsat, (unsigned long long)sstats.unknown, (unsigned long long)sstats.cacheHits, (unsigned long long)sstats.abstractUnsat, sstats.time, sstats.maxTime, now() - t0, pool.count, (unsigned long long)gConcretize, cov.c_str(), fns.c_str());
  fflush(gOut);
}
static bool runOne(Exec& X, std::unique_ptr<State> s) { // false: stop everything
  try { X.run(s.get()); }
  catch (Stop& e) {
    if (e.kind == 0) gPaths++; else if (e.kind == 1) { errorOut(s.get(), e.msg); gPaths++; if (e.msg == "time limit" || e.msg == "fork limit") return false; } else if (e.kind == 3) gPruned++; else gPaths++;
  }
  if (now() > gDeadline) { errorOut(nullptr, "time limit"); return false; }
  if (gViolKeys.size() >= gMaxViol) return false;
  return true;
}

// idle slots are shared between all processes through a token pipe; a process with several pending states gives the older half away
static int gTok[2]; static std::atomic<u64>* gSharedViol;
static void noteViol() { if (gSharedViol) gSharedViol->fetch_add(1); }
static bool tryTake() { char c; return read(gTok[0], &c, 1) == 1; }
static void give() { if (write(gTok[1], "x", 1) != 1) _exit(2); }
static bool gBad = false;
// the first process adopts and reaps all the others, which end without waiting for the ones they forked
static bool reapOne(int fl) { int st; pid_t p = waitpid(-1, &st, fl); if (p <= 0) return false; if (!WIFEXITED(st)) { gBad = true; give(); } else if (WEXITSTATUS(st)) gBad = true; return true; }
static void resetCounters() { solverReset(); sstats = SolverStats(); gPaths = gForks = gInstr = gChecks = gChecksTrivial = gViol = gErrors = gPruned = gConcretize = 0; gCovers.clear(); for (Func* f : gFuncs) f->entered = 0; }
// explores everything reachable from the pending states; never returns
[[noreturn]] static void explore(Exec& X) {
  double t0 = now(), last = t0;
  while (!X.work.empty()) {
    auto s = std::move(X.work.back()); X.work.pop_back(); if (!runOne(X, std::move(s))) break;
    if (gSharedViol->load() >= gMaxViol) break;
    if (X.work.size() >= 2 && now() - last > 0.08) {
      last = now(); while (reapOne(WNOHANG)) {}
      if (tryTake()) {
        fflush(gOut); size_t h = X.work.size() / 2; pid_t c = ::fork(); if (c < 0) { give(); continue; }
        if (c) { for (size_t i = 0; i < h; i++) X.work.pop_front(); }
        else { while (X.work.size() > h) X.work.pop_back(); gBad = false; resetCounters(); t0 = last = now(); }
      }
    }
  }
  stats(t0, "part"); give(); while (reapOne(WNOHANG)) {} _exit(gBad ? 2 : 0);
}
int main(int argc, char** argv) {
  const char *bc = nullptr, *out = nullptr; std::vector<std::string> hs; double tl = 600; int jobs = 1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
    if (a == "--bc") bc = nx(); else if (a == "--out") out = nx(); else if (a == "--time") tl = atof(nx()); else if (a == "-j") jobs = atoi(nx()); else if (a == "--query-ms") gQueryTimeoutMs = atoi(nx()); else if (a == "--dump") gDumpDir = nx(); else if (a == "-v") gVerbose = true; else if (a == "--max-viol") gMaxViol = atoi(nx()); else if (a == "--max-instr") gMaxInstrPath = strtoull(nx(), 0, 10); else hs.push_back(a); }
  if (!bc || !out || hs.empty()) { fprintf(stderr, "usage: symx --bc F --out F [-j N] [--time S] harness...\n"); return 2; }
  irLoad(bc); if (gLocs.empty()) gLocs.push_back("?");
  if (pipe(gTok)) return 2; fcntl(gTok[0], F_SETFL, O_NONBLOCK); for (int i = 0; i < jobs; i++) give();
  prctl(PR_SET_CHILD_SUBREAPER, 1); double start = now(); bool gEnded = false;
  auto late = [&]() { return now() > start + tl + gQueryTimeoutMs / 1000.0 + 30; };
  auto endAll = [&]() { gEnded = gBad = true; for (int k = 0; k < 10000; k++) { char fn[64]; snprintf(fn, sizeof fn, "/proc/self/task/%d/children", (int)getpid()); FILE* f = fopen(fn, "r"); if (!f) break; int pid, n = 0; while (fscanf(f, "%d", &pid) == 1) { kill(pid, SIGKILL); n++; } fclose(f); if (!n) break; while (waitpid(-1, nullptr, WNOHANG) > 0) {} usleep(1000); } };
  FILE* fo = fopen(out, "w"); if (!fo) return 2; fclose(fo);
  for (auto& h : hs) {
    while (!tryTake()) { if (late()) { endAll(); break; } if (!reapOne(WNOHANG)) usleep(2000); }
    if (gEnded) break;
    gSharedViol = new (mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) std::atomic<u64>(0);
    pid_t p = ::fork(); if (p < 0) return 2;
    if (p) continue;
    gBad = false;
    { int fd = open(out, O_WRONLY | O_APPEND); gOut = fdopen(fd, "a"); static char obuf[8 << 20]; setvbuf(gOut, obuf, _IOFBF, sizeof obuf); }
    gHarness = h; gDeadline = start + tl; Exec X; Func* f = irFunc(h);
    if (!f) { errorOut(nullptr, "no such harness " + h); stats(now(), "part"); give(); _exit(0); }
    auto s = std::make_unique<State>(); s->nextObj = GLOBAL_OBJ0 + gGlobals.size(); X.S = s.get(); X.pushFrame(f, -1, false); X.work.push_back(std::move(s));
    explore(X);
  }
  for (;;) { int st; if (late()) { endAll(); break; } pid_t p = waitpid(-1, &st, WNOHANG); if (p < 0) break; if (p == 0) usleep(2000); else if (!WIFEXITED(st)) { gBad = true; give(); } else if (WEXITSTATUS(st)) gBad = true; }
  if (gBad) { FILE* f = fopen(out, "a"); fprintf(f, "{\"kind\":\"error\",\"harness\":\"*\",\"msg\":\"a worker process died\",\"stack\":\"\"}\n"); fclose(f); return 2; }
  return 0;
}
