#include "ir.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <algorithm>
#include <functional>
#include <llvm-c/Linker.h>
#include <llvm-c/BitWriter.h>
#include <unordered_set>
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
std::vector<Func*> gFuncs; std::vector<GlobalDef> gGlobals; std::vector<Slot> gConsts; std::vector<std::string> gLocs;
static LLVMModuleRef M; static LLVMTargetDataRef TD; static LLVMContextRef CX;
static std::unordered_map<LLVMValueRef, Func*> fmap; static std::unordered_map<std::string, Func*> fname; static std::unordered_map<LLVMValueRef, u32> gmap;
static std::unordered_map<u64, int32_t> constIdx; static std::unordered_map<E, int32_t> constIdxE;
static std::unordered_map<std::string, u32> locIdx;
[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "ir: %s\n", s.c_str()); exit(2); }
static int32_t constOp(u128 v, unsigned w) {
  v &= maskw(w);
  if (w <= 64) { auto it = constIdx.find((u64)v); if (it != constIdx.end()) return it->second; gConsts.push_back({(u64)v, nullptr}); int32_t r = -(int32_t)gConsts.size(); constIdx[(u64)v] = r; return r; }
  E e = mkConst(v, w); auto it = constIdxE.find(e); if (it != constIdxE.end()) return it->second; gConsts.push_back({0, e}); int32_t r = -(int32_t)gConsts.size(); constIdxE[e] = r; return r;
}
struct FT { std::vector<u16> w; std::vector<u64> off; };
static std::unordered_map<LLVMTypeRef, FT> ftc;
static unsigned scalarW(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
    case LLVMFloatTypeKind: return 32; case LLVMDoubleTypeKind: return 64; case LLVMPointerTypeKind: return 64; case LLVMHalfTypeKind: return 16; case LLVMFP128TypeKind: return 128;
    default: return 0;
  }
}
static void flat(LLVMTypeRef t, u64 off, FT& o) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMTokenTypeKind: case LLVMLabelTypeKind: return;
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o); return; }
    case LLVMArrayTypeKind: { LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), sz = LLVMABISizeOfType(TD, et); if (n > 4096) die("huge SSA array"); for (u64 i = 0; i < n; i++) flat(et, off + i * sz, o); return; }
    case LLVMVectorTypeKind: { LLVMTypeRef et = LLVMGetElementType(t); unsigned n = LLVMGetVectorSize(t), w = scalarW(et); for (unsigned i = 0; i < n; i++) { o.w.push_back(w); o.off.push_back(w % 8 ? ~0ull : off + i * (w / 8)); } return; }
    default: { unsigned w = scalarW(t); if (!w) { char* s = LLVMPrintTypeToString(t); die(std::string("type ") + s); } o.w.push_back(w); o.off.push_back(off); }
  }
}
static FT& ft(LLVMTypeRef t) { auto it = ftc.find(t); if (it != ftc.end()) return it->second; FT f; flat(t, 0, f); return ftc[t] = f; }
u64 irFuncAddr(Func* f) { return ((FUNC_OBJ + f->id) << OSHIFT) + OBASE; }
Func* irFuncByAddr(u64 a) { u64 o = a >> OSHIFT; if (o < FUNC_OBJ || o - FUNC_OBJ >= gFuncs.size() || (a & ((1ull << OSHIFT) - 1)) != OBASE) return nullptr; return gFuncs[o - FUNC_OBJ]; }
Func* irFunc(const std::string& n) { auto it = fname.find(n); return it == fname.end() ? nullptr : it->second; }
static u128 bigInt(LLVMValueRef c) {
  unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(c)); if (w <= 64) return LLVMConstIntGetZExtValue(c);
  char* s = LLVMPrintValueToString(c); const char* p = strchr(s, ' '); if (!p) die("const"); p++; bool neg = *p == '-'; if (neg) p++; u128 v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); LLVMDisposeMessage(s); return (neg ? -v : v) & maskw(w);
}
static u128 constScalar(LLVMValueRef c);
static u64 gepConstOffset(LLVMValueRef c) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(c); u64 off = 0; int n = LLVMGetNumOperands(c);
  for (int i = 1; i < n; i++) {
    i128 idx = sextv(constScalar(LLVMGetOperand(c, i)), scalarW(LLVMTypeOf(LLVMGetOperand(c, i))));
    if (i == 1) { off += (u64)idx * LLVMABISizeOfType(TD, t); continue; }
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += LLVMOffsetOfElement(TD, t, (unsigned)idx); t = LLVMStructGetTypeAtIndex(t, (unsigned)idx); }
    else { t = LLVMGetElementType(t); off += (u64)idx * LLVMABISizeOfType(TD, t); }
  }
  return off;
}
static u128 constScalar(LLVMValueRef c) {
  LLVMTypeRef t = LLVMTypeOf(c); unsigned w = scalarW(t);
  if (LLVMIsAConstantInt(c)) return bigInt(c);
  if (LLVMIsAConstantFP(c)) { LLVMValueRef b = LLVMConstBitCast(c, LLVMIntTypeInContext(CX, w)); if (!LLVMIsAConstantInt(b)) die("fp const"); return bigInt(b); }
  if (LLVMIsAConstantPointerNull(c) || LLVMIsUndef(c) || LLVMIsPoison(c) || LLVMIsAConstantAggregateZero(c)) return 0;
  if (LLVMIsAFunction(c)) { auto it = fmap.find(c); if (it == fmap.end()) die("fn const"); return irFuncAddr(it->second); }
  if (LLVMIsAGlobalAlias(c)) return constScalar(LLVMAliasGetAliasee(c));
  if (LLVMIsAGlobalVariable(c)) { auto it = gmap.find(c); if (it == gmap.end()) die("global const"); return gGlobals[it->second].addr; }
  if (LLVMIsAConstantExpr(c)) {
    auto op = [&](int i) { return constScalar(LLVMGetOperand(c, i)); };
    switch (LLVMGetConstOpcode(c)) {
      case LLVMGetElementPtr: return (u64)(op(0) + gepConstOffset(c));
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case LLVMTrunc: return op(0) & maskw(w);
      case LLVMAdd: return (op(0) + op(1)) & maskw(w); case LLVMSub: return (op(0) - op(1)) & maskw(w);
      default: { char* s = LLVMPrintValueToString(c); if (strstr(s, "ptrtoaddr")) return op(0); die(std::string("constexpr ") + s); }
    }
  }
  char* s = LLVMPrintValueToString(c); die(std::string("const ") + s);
}
static void constFlat(LLVMValueRef c, std::vector<int32_t>& out) {
  LLVMTypeRef t = LLVMTypeOf(c);
  switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind: case LLVMArrayTypeKind: case LLVMVectorTypeKind: {
      if (LLVMIsUndef(c) || LLVMIsPoison(c) || LLVMIsAConstantAggregateZero(c)) { for (u16 w : ft(t).w) out.push_back(constOp(0, w)); return; }
      u64 n = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : LLVMGetTypeKind(t) == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
      for (u64 i = 0; i < n; i++) { LLVMValueRef el = LLVMGetAggregateElement(c, i); if (!el) die("agg elem"); constFlat(el, out); }
      return; }
    case LLVMMetadataTypeKind: case LLVMTokenTypeKind: return;
    default: out.push_back(constOp(constScalar(c), scalarW(t)));
  }
}
static void initBytes(LLVMValueRef c, u64 off, std::vector<u8>& out) {
  LLVMTypeRef t = LLVMTypeOf(c);
  if (LLVMIsUndef(c) || LLVMIsPoison(c) || LLVMIsAConstantAggregateZero(c) || LLVMIsAConstantPointerNull(c)) return;
  switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) initBytes(LLVMGetAggregateElement(c, i), off + LLVMOffsetOfElement(TD, t, i), out); return; }
    case LLVMArrayTypeKind: {
      LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), sz = LLVMABISizeOfType(TD, et);
      if (LLVMIsAConstantDataArray(c) && LLVMIsConstantString(c)) { size_t len; const char* s = LLVMGetAsString(c, &len); memcpy(out.data() + off, s, len); return; }
      for (u64 i = 0; i < n; i++) initBytes(LLVMGetAggregateElement(c, i), off + i * sz, out); return; }
    case LLVMVectorTypeKind: { unsigned n = LLVMGetVectorSize(t), w = scalarW(LLVMGetElementType(t)); for (unsigned i = 0; i < n; i++) initBytes(LLVMGetAggregateElement(c, i), off + i * (w / 8), out); return; }
    default: { u128 v = constScalar(c); unsigned w = scalarW(t); for (unsigned i = 0; i < (w + 7) / 8; i++) out.at(off + i) = (u8)(v >> (8 * i)); }
  }
}
void irInitGlobal(GlobalDef& g, std::vector<u8>& out) { out.assign(g.size, 0); LLVMValueRef init = LLVMGetInitializer((LLVMValueRef)g.llvm); if (init) initBytes(init, 0, out); }
int panicKindOf(const std::string& n); int extKind(const std::string& n);
// ---- linking: object files that are bitcode, and archives whose members are bitcode or carry it in a section ----
struct Member { LLVMModuleRef mod; bool linked = false; };
static std::vector<Member> gMembers; static std::unordered_map<std::string, size_t> gDefs;
static LLVMModuleRef lazyModule(const char* p, size_t n, const char* name) {
  LLVMMemoryBufferRef mb = LLVMCreateMemoryBufferWithMemoryRangeCopy(p, n, name); LLVMModuleRef m = nullptr;
  if (LLVMGetBitcodeModuleInContext2(CX, mb, &m)) return nullptr; return m;
}
static bool bitcodeOf(const std::vector<char>& d, size_t off, size_t len, size_t& o, size_t& l) {
  const unsigned char* p = (const unsigned char*)d.data() + off; if (len < 64) return false;
  if (p[0] == 'B' && p[1] == 'C' && p[2] == 0xc0 && p[3] == 0xde) { o = off; l = len; return true; }
  if (memcmp(p, "\x7f" "ELF", 4)) return false;
  auto r = [&](size_t at, int n) { u64 v = 0; memcpy(&v, p + at, n); return v; };
  u64 sh = r(0x28, 8), es = r(0x3a, 2), n = r(0x3c, 2), si = r(0x3e, 2); u64 str = r(sh + si * es + 0x18, 8);
  for (u64 i = 0; i < n; i++) { u64 h = sh + i * es; const char* nm = (const char*)p + str + r(h, 4); if (!strcmp(nm, ".llvmbc")) { o = off + r(h + 0x18, 8); l = r(h + 0x20, 8); return l > 16; } }
  return false;
}
static bool definesBody(LLVMValueRef v) { auto l = LLVMGetLinkage(v); return !LLVMIsDeclaration(v) && l != LLVMInternalLinkage && l != LLVMPrivateLinkage && l != LLVMAvailableExternallyLinkage; }
static void addMember(const std::vector<char>& d, size_t off, size_t len, const char* name, bool root) {
  size_t o, l; if (!bitcodeOf(d, off, len, o, l)) return; LLVMModuleRef m = lazyModule(d.data() + o, l, name); if (!m) return;
  size_t k = gMembers.size(), n; gMembers.push_back({m, root});
  auto def = [&](LLVMValueRef v) { if (definesBody(v)) gDefs.emplace(LLVMGetValueName2(v, &n), k); };
  for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) def(f);
  for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) def(g);
  for (LLVMValueRef g = LLVMGetFirstGlobalAlias(m); g; g = LLVMGetNextGlobalAlias(g)) def(g);
}
static std::vector<char> slurp(const std::string& f) { std::vector<char> d; FILE* h = fopen(f.c_str(), "rb"); if (!h) die("cannot read " + f); fseek(h, 0, SEEK_END); d.resize(ftell(h)); rewind(h); if (fread(d.data(), 1, d.size(), h) != d.size()) die("short read"); fclose(h); return d; }
// LIST names one file per line: root objects and archives
static void irLink(const char* list) {
  CX = LLVMContextCreate(); std::vector<char> lf = slurp(list); std::string cur; std::vector<std::string> files; for (char c : lf) if (c == '\n') { if (!cur.empty()) files.push_back(cur); cur.clear(); } else cur += c;
  for (auto& f : files) {
    std::vector<char> d = slurp(f); if (f.find("libcompiler_builtins") != std::string::npos) continue;
    if (d.size() > 8 && !memcmp(d.data(), "!<arch>\n", 8)) {
      size_t at = 8; while (at + 60 <= d.size()) { size_t n = strtoull(std::string(d.data() + at + 48, 10).c_str(), nullptr, 10); addMember(d, at + 60, n, f.c_str(), false); at += 60 + n + (n & 1); }
    } else addMember(d, 0, d.size(), f.c_str(), true);
  }
  std::vector<LLVMModuleRef> ms; std::vector<size_t> todo; for (size_t i = 0; i < gMembers.size(); i++) if (gMembers[i].linked) todo.push_back(i);
  std::unordered_set<std::string> seen;
  auto need = [&](LLVMModuleRef m) {
    size_t n; auto req = [&](LLVMValueRef v) { if (!LLVMIsDeclaration(v)) return; std::string nm = LLVMGetValueName2(v, &n); if (!seen.insert(nm).second) return; if (panicKindOf(nm) || extKind(nm) >= 0) return; auto it = gDefs.find(nm); if (it == gDefs.end() || gMembers[it->second].linked) return; gMembers[it->second].linked = true; todo.push_back(it->second); };
    for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) req(f);
    for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) req(g);
  };
  while (!todo.empty()) { size_t k = todo.back(); todo.pop_back(); need(gMembers[k].mod); ms.push_back(gMembers[k].mod); }
  size_t raw = ms.size(); // the first level goes into fresh modules: only what is linked in gets its bodies read
  for (size_t i = 0; i < raw; i += 2) { LLVMModuleRef m = LLVMModuleCreateWithNameInContext("all", CX); LLVMSetTarget(m, LLVMGetTarget(ms[i])); LLVMSetDataLayout(m, LLVMGetDataLayoutStr(ms[i])); for (size_t j = i; j < std::min(i + 2, raw); j++) if (LLVMLinkModules2(m, ms[j])) die("link failed"); ms.push_back(m); }
  ms.erase(ms.begin(), ms.begin() + raw);
  // smallest first, pairwise, so that no module is walked over more than a logarithmic number of times
  for (size_t head = 0; head + 1 < ms.size(); head += 2) { if (LLVMLinkModules2(ms[head], ms[head + 1])) die("link failed"); ms.push_back(ms[head]); }
  M = ms.back();
}
void irLoad(const char* path) {
  irLink(path);
  TD = LLVMGetModuleDataLayout(M);
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    Func* fn = new Func; size_t l; fn->name = LLVMGetValueName2(f, &l); fn->llvm = f; fn->isDecl = LLVMIsDeclaration(f); fn->id = gFuncs.size(); gFuncs.push_back(fn); fmap[f] = fn; fname[fn->name] = fn;
    fn->panicKind = panicKindOf(fn->name); fn->ext = extKind(fn->name);
  }
  u64 obj = GLOBAL_OBJ0;
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
    GlobalDef d; size_t l; d.name = LLVMGetValueName2(g, &l); d.llvm = g; d.addr = (obj++ << OSHIFT) + OBASE; d.size = LLVMGlobalGetValueType(g) && LLVMTypeIsSized(LLVMGlobalGetValueType(g)) ? LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g)) : 0; d.ro = LLVMIsGlobalConstant(g); d.tls = LLVMIsThreadLocal(g);
    gmap[g] = gGlobals.size(); gGlobals.push_back(d);
  }
}
struct Tx {
  Func* F; std::unordered_map<LLVMValueRef, std::vector<int32_t>> vals; std::unordered_map<LLVMBasicBlockRef, u32> bstart;
  std::vector<std::pair<u32, LLVMBasicBlockRef>> edgeFix; std::unordered_map<LLVMBasicBlockRef, std::vector<LLVMValueRef>> phis; u32 curLoc = 0;
  struct PE { LLVMBasicBlockRef from, to; };
  std::vector<PE> pend;
  int32_t reg() { return F->nslots++; }
  Inst& emit(u16 op, u16 w, int32_t dst, int32_t a = 0, int32_t b = 0, int32_t c = 0, u64 imm = 0, u16 w2 = 0) { F->code.push_back({op, w, w2, 0, dst, a, b, c, imm}); F->loc.push_back(curLoc); return F->code.back(); }
  int32_t emitR(u16 op, u16 w, int32_t a = 0, int32_t b = 0, int32_t c = 0, u64 imm = 0, u16 w2 = 0) { int32_t r = reg(); emit(op, w, r, a, b, c, imm, w2); return r; }
  const std::vector<int32_t>& get(LLVMValueRef v) {
    auto it = vals.find(v); if (it != vals.end()) return it->second;
    if (LLVMIsConstant(v)) { std::vector<int32_t> o; constFlat(v, o); return vals[v] = o; }
    if (LLVMIsAInlineAsm(v)) { return vals[v] = {}; }
    char* s = LLVMPrintValueToString(v); die(std::string("undefined value ") + s);
  }
  int32_t g1(LLVMValueRef v) { auto& r = get(v); if (r.size() != 1) { char* s = LLVMPrintValueToString(v); die(std::string("scalar expected ") + s); } return r[0]; }
  u32 edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to) { pend.push_back({from, to}); F->edges.emplace_back(); return F->edges.size() - 1; }
  bool constVal(LLVMValueRef v, u128& out) { if (LLVMIsAConstantInt(v)) { out = bigInt(v); return true; } return false; }
  void bad(LLVMValueRef I) { char* s = LLVMPrintValueToString(I); u32 k = F->lists.size(); gLocs.push_back(std::string("unsupported: ") + s); LLVMDisposeMessage(s); emit(I_BAD, 0, 0, 0, 0, 0, gLocs.size() - 1); (void)k; std::vector<int32_t> o; for (u16 w : ft(LLVMTypeOf(I)).w) { (void)w; o.push_back(reg()); } vals[I] = o; }
  void call(LLVMValueRef I);
  bool intrinsic(LLVMValueRef I, const std::string& n, unsigned nargs);
  void inst(LLVMValueRef I, LLVMBasicBlockRef bb);
  void ret1(LLVMValueRef I, std::function<int32_t(unsigned, u16)> f) { auto& t = ft(LLVMTypeOf(I)); std::vector<int32_t> o; for (unsigned i = 0; i < t.w.size(); i++) o.push_back(f(i, t.w[i])); vals[I] = o; }
};
static bool has(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
bool Tx::intrinsic(LLVMValueRef I, const std::string& n, unsigned na) {
  auto A = [&](unsigned i) { return LLVMGetOperand(I, i); };
  auto simple = [&](IOp op) { ret1(I, [&](unsigned i, u16 w) { return emitR(op, w, get(A(0))[i], na > 1 && get(A(1)).size() > i ? get(A(1))[i] : 0, na > 2 && get(A(2)).size() > i ? get(A(2))[i] : 0, 0, ft(LLVMTypeOf(A(0))).w[i]); }); return true; };
  auto fop = [&](K k, u64 aux = 0) { ret1(I, [&](unsigned i, u16 w) { return emitR(I_FOP, w, get(A(0))[i], na > 1 ? get(A(1))[i] : 0, na > 2 ? get(A(2))[i] : 0, (u64)k | aux << 8, ft(LLVMTypeOf(A(0))).w[i]); }); return true; };
  auto fmin = [&](int kind) { ret1(I, [&](unsigned i, u16 w) { return emitR(I_FMIN, w, get(A(0))[i], get(A(1))[i], 0, kind); }); return true; };
  auto withOv = [&](IOp op, IOp ov) { auto a = get(A(0)), b = get(A(1)); auto& t = ft(LLVMTypeOf(A(0))); std::vector<int32_t> o; for (unsigned i = 0; i < a.size(); i++) o.push_back(emitR(op, t.w[i], a[i], b[i])); for (unsigned i = 0; i < a.size(); i++) o.push_back(emitR(ov, t.w[i], a[i], b[i])); vals[I] = o; return true; };
  auto reduce = [&](std::function<int32_t(int32_t, int32_t, u16)> f) { auto a = get(A(0)); u16 w = ft(LLVMTypeOf(A(0))).w[0]; int32_t r = a[0]; for (size_t i = 1; i < a.size(); i++) r = f(r, a[i], w); vals[I] = {r}; return true; };
  if (has(n, "llvm.lifetime") || has(n, "llvm.dbg") || has(n, "llvm.experimental.noalias") || has(n, "llvm.prefetch") || has(n, "llvm.x86.sse2.pause") || has(n, "llvm.va_") || has(n, "llvm.fake.use")) { vals[I] = {}; for (u16 w : ft(LLVMTypeOf(I)).w) vals[I].push_back(constOp(0, w)); return true; }
  if (has(n, "llvm.assume")) { vals[I] = {}; emit(I_ASSUME, 1, 0, g1(A(0))); return true; }
  if (has(n, "llvm.trap") || has(n, "llvm.ubsantrap") || has(n, "llvm.debugtrap")) { emit(I_TRAP, 0, 0); return true; }
  if (has(n, "llvm.memcpy") || has(n, "llvm.memmove")) { emit(I_MEMCPY, 0, 0, g1(A(0)), g1(A(1)), g1(A(2)), 0, ft(LLVMTypeOf(A(2))).w[0]); vals[I] = {}; return true; }
  if (has(n, "llvm.memset")) { emit(I_MEMSET, 0, 0, g1(A(0)), g1(A(1)), g1(A(2)), 0, ft(LLVMTypeOf(A(2))).w[0]); vals[I] = {}; return true; }
  if (has(n, "llvm.expect") || has(n, "llvm.threadlocal.address") || has(n, "llvm.launder") || has(n, "llvm.strip") || has(n, "llvm.ssa.copy")) { vals[I] = get(A(0)); return true; }
  if (has(n, "llvm.is.constant")) { vals[I] = {constOp(0, 1)}; return true; }
  if (has(n, "llvm.objectsize")) { vals[I] = {constOp(~0ull, scalarW(LLVMTypeOf(I)))}; return true; }
  if (has(n, "llvm.ctlz")) return simple(I_CTLZ); if (has(n, "llvm.cttz")) return simple(I_CTTZ); if (has(n, "llvm.ctpop")) return simple(I_CTPOP);
  if (has(n, "llvm.bswap")) return simple(I_BSWAP); if (has(n, "llvm.bitreverse")) return simple(I_BITREV);
  if (has(n, "llvm.fshl")) return simple(I_FSHL); if (has(n, "llvm.fshr")) return simple(I_FSHR);
  if (has(n, "llvm.umin")) return simple(I_UMIN); if (has(n, "llvm.umax")) return simple(I_UMAX); if (has(n, "llvm.smin")) return simple(I_SMIN); if (has(n, "llvm.smax")) return simple(I_SMAX);
  if (has(n, "llvm.abs")) return simple(I_ABS);
  if (has(n, "llvm.uadd.sat")) return simple(I_UADDSAT); if (has(n, "llvm.usub.sat")) return simple(I_USUBSAT); if (has(n, "llvm.sadd.sat")) return simple(I_SADDSAT); if (has(n, "llvm.ssub.sat")) return simple(I_SSUBSAT);
  if (has(n, "llvm.uadd.with")) return withOv(I_ADD, I_UADDO); if (has(n, "llvm.usub.with")) return withOv(I_SUB, I_USUBO); if (has(n, "llvm.umul.with")) return withOv(I_MUL, I_UMULO);
  if (has(n, "llvm.sadd.with")) return withOv(I_ADD, I_SADDO); if (has(n, "llvm.ssub.with")) return withOv(I_SUB, I_SSUBO); if (has(n, "llvm.smul.with")) return withOv(I_MUL, I_SMULO);
  if (has(n, "llvm.ucmp")) return simple(I_UCMP); if (has(n, "llvm.scmp")) return simple(I_SCMP);
  if (has(n, "llvm.fabs")) { ret1(I, [&](unsigned i, u16 w) { return emitR(I_AND, w, get(A(0))[i], constOp(maskw(w - 1), w)); }); return true; }
  if (has(n, "llvm.copysign")) { ret1(I, [&](unsigned i, u16 w) { int32_t m = emitR(I_AND, w, get(A(0))[i], constOp(maskw(w - 1), w)), s = emitR(I_AND, w, get(A(1))[i], constOp((u128)1 << (w - 1), w)); return emitR(I_OR, w, m, s); }); return true; }
  if (has(n, "llvm.sqrt")) return fop(K::FSQRT); if (has(n, "llvm.ceil")) return fop(K::FROUND, 1); if (has(n, "llvm.floor")) return fop(K::FROUND, 2); if (has(n, "llvm.trunc")) return fop(K::FROUND, 3);
  if (has(n, "llvm.roundeven") || has(n, "llvm.rint") || has(n, "llvm.nearbyint")) return fop(K::FROUND, 0); if (has(n, "llvm.round")) return fop(K::FROUND, 4);
  if (has(n, "llvm.fma.")) return fop(K::FMA);
  if (has(n, "llvm.fmuladd")) { ret1(I, [&](unsigned i, u16 w) { int32_t m = emitR(I_FOP, w, get(A(0))[i], get(A(1))[i], 0, (u64)K::FMUL, w); return emitR(I_FOP, w, m, get(A(2))[i], 0, (u64)K::FADD, w); }); return true; }
  if (has(n, "llvm.minnum") || has(n, "llvm.minimumnum")) return fmin(0); if (has(n, "llvm.maxnum") || has(n, "llvm.maximumnum")) return fmin(1); if (has(n, "llvm.minimum")) return fmin(2); if (has(n, "llvm.maximum")) return fmin(3);
  if (has(n, "llvm.fptosi.sat")) return fop(K::FPTOSISAT); if (has(n, "llvm.fptoui.sat")) return fop(K::FPTOUISAT);
  if (has(n, "llvm.is.fpclass")) { u128 m; constVal(A(1), m); ret1(I, [&](unsigned i, u16 w) { return emitR(I_FPCLASS, w, get(A(0))[i], 0, 0, (u64)m, ft(LLVMTypeOf(A(0))).w[i]); }); return true; }
  if (has(n, "llvm.ptrmask")) return simple(I_AND);
  if (has(n, "llvm.load.relative")) { int32_t p = emitR(I_PTRADDX, 64, g1(A(0)), g1(A(1)), 0, 1, ft(LLVMTypeOf(A(1))).w[0]); int32_t v = emitR(I_LOAD, 32, p); vals[I] = {emitR(I_PTRADDX, 64, g1(A(0)), v, 0, 1, 32)}; return true; }
  if (has(n, "llvm.vector.reduce.")) {
    std::string k = n.substr(19);
    auto bin = [&](IOp op) { return reduce([&, op](int32_t x, int32_t y, u16 w) { return emitR(op, w, x, y); }); };
    if (has(k, "add")) return bin(I_ADD); if (has(k, "mul")) return bin(I_MUL); if (has(k, "and")) return bin(I_AND); if (has(k, "or")) return bin(I_OR); if (has(k, "xor")) return bin(I_XOR);
    if (has(k, "umax")) return bin(I_UMAX); if (has(k, "umin")) return bin(I_UMIN); if (has(k, "smax")) return bin(I_SMAX); if (has(k, "smin")) return bin(I_SMIN);
  }
  return false;
}
void Tx::call(LLVMValueRef I) {
  unsigned na = LLVMGetNumArgOperands(I); LLVMValueRef cv = LLVMGetCalledValue(I); auto& rt = ft(LLVMTypeOf(I));
  if (LLVMIsAInlineAsm(cv)) { // optimisation barriers only
    std::vector<int32_t> o; for (unsigned i = 0; i < rt.w.size(); i++) o.push_back(na && get(LLVMGetOperand(I, 0)).size() > i ? get(LLVMGetOperand(I, 0))[i] : constOp(0, rt.w[i]));
    size_t al; const char* as = LLVMGetInlineAsmAsmString(cv, &al); if (al) { gLocs.push_back(std::string("inline asm: ") + as); emit(I_BAD, 0, 0, 0, 0, 0, gLocs.size() - 1); }
    vals[I] = o; return;
  }
  while (LLVMIsAGlobalAlias(cv)) cv = LLVMAliasGetAliasee(cv);
  CallInfo ci; 
  if (LLVMIsAFunction(cv)) {
    Func* f = fmap[cv];
    if (f->isDecl && has(f->name, "llvm.")) { if (!intrinsic(I, f->name, na)) bad(I); return; }
    ci.callee = f;
  } else ci.calleePtr = g1(cv);
  for (unsigned i = 0; i < na; i++) { LLVMValueRef a = LLVMGetOperand(I, i); auto& v = get(a); auto& t = ft(LLVMTypeOf(a)); for (size_t k = 0; k < v.size(); k++) { ci.args.push_back(v[k]); ci.argw.push_back(t.w[k]); } }
  ci.nret = rt.w.size(); ci.retw = rt.w; std::vector<int32_t> o; if (ci.nret) { ci.dst = F->nslots; for (unsigned i = 0; i < ci.nret; i++) o.push_back(reg()); }
  vals[I] = o; F->calls.push_back(ci); emit(ci.callee ? I_CALL : I_ICALL, 0, ci.dst, 0, 0, 0, F->calls.size() - 1);
}
void Tx::inst(LLVMValueRef I, LLVMBasicBlockRef bb) {
  LLVMOpcode op = LLVMGetInstructionOpcode(I); LLVMTypeRef T = LLVMTypeOf(I);
  auto O = [&](unsigned i) { return LLVMGetOperand(I, i); };
  auto lanes = [&](IOp iop, u64 imm = 0) { ret1(I, [&](unsigned i, u16 w) { return emitR(iop, w, get(O(0))[i], get(O(1))[i], 0, imm, ft(LLVMTypeOf(O(0))).w[i]); }); };
  auto flanes = [&](K k) { ret1(I, [&](unsigned i, u16 w) { return emitR(I_FOP, w, get(O(0))[i], LLVMGetNumOperands(I) > 1 ? get(O(1))[i] : 0, 0, (u64)k, ft(LLVMTypeOf(O(0))).w[i]); }); };
  auto cast = [&](IOp iop) { ret1(I, [&](unsigned i, u16 w) { return emitR(iop, w, get(O(0))[i], 0, 0, 0, ft(LLVMTypeOf(O(0))).w[i]); }); };
  switch (op) {
    case LLVMAdd: return lanes(I_ADD); case LLVMSub: return lanes(I_SUB); case LLVMMul: return lanes(I_MUL);
    case LLVMUDiv: return lanes(I_UDIV); case LLVMSDiv: return lanes(I_SDIV); case LLVMURem: return lanes(I_UREM); case LLVMSRem: return lanes(I_SREM);
    case LLVMShl: return lanes(I_SHL); case LLVMLShr: return lanes(I_LSHR); case LLVMAShr: return lanes(I_ASHR);
    case LLVMAnd: return lanes(I_AND); case LLVMOr: return lanes(I_OR); case LLVMXor: return lanes(I_XOR);
    case LLVMFAdd: return flanes(K::FADD); case LLVMFSub: return flanes(K::FSUB); case LLVMFMul: return flanes(K::FMUL); case LLVMFDiv: return flanes(K::FDIV); case LLVMFRem: return flanes(K::FREM);
    case LLVMFNeg: ret1(I, [&](unsigned i, u16 w) { return emitR(I_XOR, w, get(O(0))[i], constOp((u128)1 << (w - 1), w)); }); return;
    case LLVMICmp: return lanes(I_ICMP, LLVMGetICmpPredicate(I)); case LLVMFCmp: return lanes(I_FCMP, LLVMGetFCmpPredicate(I));
    case LLVMZExt: return cast(I_ZEXT); case LLVMSExt: return cast(I_SEXT); case LLVMTrunc: return cast(I_TRUNC);
    case LLVMFPToUI: return flanes(K::FPTOUI); case LLVMFPToSI: return flanes(K::FPTOSI); case LLVMUIToFP: return flanes(K::UITOFP); case LLVMSIToFP: return flanes(K::SITOFP);
    case LLVMFPTrunc: return flanes(K::FPTRUNC); case LLVMFPExt: return flanes(K::FPEXT);
    case LLVMPtrToInt: { unsigned w = scalarW(T); if (w == 64 || !w) vals[I] = get(O(0)); else cast(w < 64 ? I_TRUNC : I_ZEXT); return; }
    case LLVMIntToPtr: { unsigned w = scalarW(LLVMTypeOf(O(0))); if (w == 64 || !w) vals[I] = get(O(0)); else cast(w < 64 ? I_ZEXT : I_TRUNC); return; }
    case LLVMFreeze: case LLVMAddrSpaceCast: vals[I] = get(O(0)); return;
    case LLVMBitCast: {
      auto s = get(O(0)); auto& sw = ft(LLVMTypeOf(O(0))).w; auto& dw = ft(T).w;
      if (s.size() == dw.size()) { vals[I] = s; return; }
      std::vector<int32_t> o;
      if (s.size() > dw.size()) { unsigned k = s.size() / dw.size(); for (size_t d = 0; d < dw.size(); d++) { int32_t acc = s[d * k]; u16 w = sw[0]; for (unsigned j = 1; j < k; j++) { acc = emitR(I_CONCAT, w + sw[0], s[d * k + j], acc, 0, 0, w); w += sw[0]; } o.push_back(acc); } }
      else { unsigned k = dw.size() / s.size(); for (size_t d = 0; d < s.size(); d++) for (unsigned j = 0; j < k; j++) o.push_back(emitR(I_EXTRACT, dw[0], s[d], 0, 0, j * dw[0], sw[0])); }
      vals[I] = o; return; }
    case LLVMSelect: { auto c = get(O(0)); auto a = get(O(1)), b = get(O(2)); bool vec = LLVMGetTypeKind(LLVMTypeOf(O(0))) == LLVMVectorTypeKind; ret1(I, [&](unsigned i, u16 w) { return emitR(I_SELECT, w, vec ? c[i] : c[0], a[i], b[i]); }); return; }
    case LLVMExtractValue: { const unsigned* ix = LLVMGetIndices(I); unsigned n = LLVMGetNumIndices(I); LLVMTypeRef t = LLVMTypeOf(O(0)); size_t pos = 0;
      for (unsigned k = 0; k < n; k++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[k]; j++) pos += ft(LLVMStructGetTypeAtIndex(t, j)).w.size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); } else { t = LLVMGetElementType(t); pos += ft(t).w.size() * ix[k]; } }
      auto& v = get(O(0)); vals[I] = std::vector<int32_t>(v.begin() + pos, v.begin() + pos + ft(t).w.size()); return; }
    case LLVMInsertValue: { const unsigned* ix = LLVMGetIndices(I); unsigned n = LLVMGetNumIndices(I); LLVMTypeRef t = LLVMTypeOf(O(0)); size_t pos = 0;
      for (unsigned k = 0; k < n; k++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[k]; j++) pos += ft(LLVMStructGetTypeAtIndex(t, j)).w.size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); } else { t = LLVMGetElementType(t); pos += ft(t).w.size() * ix[k]; } }
      auto v = get(O(0)); auto s = get(O(1)); for (size_t k = 0; k < s.size(); k++) v[pos + k] = s[k]; vals[I] = v; return; }
    case LLVMExtractElement: { u128 k; auto v = get(O(0)); if (constVal(O(1), k)) { vals[I] = {v[(size_t)k % v.size()]}; return; } F->lists.push_back(v); u16 w = scalarW(T); vals[I] = {emitR(I_VECIDX, w, g1(O(1)), 0, 0, F->lists.size() - 1, ft(LLVMTypeOf(O(1))).w[0])}; return; }
    case LLVMInsertElement: { u128 k; auto v = get(O(0)); int32_t s = g1(O(1)); if (constVal(O(2), k)) { v[(size_t)k % v.size()] = s; vals[I] = v; return; }
      u16 w = ft(T).w[0], iw = ft(LLVMTypeOf(O(2))).w[0]; std::vector<int32_t> o; for (size_t i = 0; i < v.size(); i++) { int32_t c = emitR(I_ICMP, 1, g1(O(2)), constOp(i, iw), 0, LLVMIntEQ, iw); o.push_back(emitR(I_SELECT, w, c, s, v[i])); } vals[I] = o; return; }
    case LLVMShuffleVector: { auto a = get(O(0)), b = get(O(1)); unsigned n = LLVMGetNumMaskElements(I); std::vector<int32_t> o; for (unsigned i = 0; i < n; i++) { int m = LLVMGetMaskValue(I, i); o.push_back(m < 0 ? constOp(0, ft(T).w[0]) : (size_t)m < a.size() ? a[m] : b[m - a.size()]); } vals[I] = o; return; }
    case LLVMAlloca: { u128 n = 1; if (!constVal(O(0), n)) return bad(I); u64 sz = LLVMABISizeOfType(TD, LLVMGetAllocatedType(I)) * (u64)n; vals[I] = {emitR(I_ALLOCA, 64, 0, 0, 0, sz)}; return; }
    case LLVMLoad: { int32_t p = g1(O(0)); auto& t = ft(T); std::vector<int32_t> o; for (size_t i = 0; i < t.w.size(); i++) { if (t.off[i] == ~0ull) return bad(I); o.push_back(emitR(I_LOAD, t.w[i], p, 0, 0, t.off[i])); } vals[I] = o; return; }
    case LLVMStore: { auto v = get(O(0)); int32_t p = g1(O(1)); auto& t = ft(LLVMTypeOf(O(0))); for (size_t i = 0; i < t.w.size(); i++) { if (t.off[i] == ~0ull) return bad(I); emit(I_STORE, t.w[i], 0, p, v[i], 0, t.off[i]); } return; }
    case LLVMGetElementPtr: {
      if (LLVMGetTypeKind(T) == LLVMVectorTypeKind) return bad(I);
      int32_t cur = g1(O(0)); u64 coff = 0; LLVMTypeRef t = LLVMGetGEPSourceElementType(I); int n = LLVMGetNumOperands(I);
      for (int i = 1; i < n; i++) {
        u128 k; LLVMValueRef ix = O(i); unsigned iw = scalarW(LLVMTypeOf(ix)); bool c = constVal(ix, k); u64 stride;
        if (i == 1) stride = LLVMABISizeOfType(TD, t);
        else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { coff += LLVMOffsetOfElement(TD, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k); continue; }
        else { t = LLVMGetElementType(t); stride = LLVMABISizeOfType(TD, t); }
        if (c) coff += (u64)sextv(k, iw) * stride; else cur = emitR(I_PTRADDX, 64, cur, g1(ix), 0, stride, iw);
      }
      if (coff) cur = emitR(I_PTRADD, 64, cur, 0, 0, coff);
      vals[I] = {cur}; return; }
    case LLVMPHI: return; // handled up front
    case LLVMBr: case (LLVMOpcode)76: case (LLVMOpcode)75: break;
    case LLVMSwitch: { SwitchInfo si; int32_t c = g1(O(0)); unsigned ns = LLVMGetNumSuccessors(I); si.def = edge(bb, LLVMGetSwitchDefaultDest(I));
      for (unsigned i = 1; i < ns; i++) si.cases.push_back({bigInt(LLVMGetSwitchCaseValue(I, i)), edge(bb, LLVMGetSuccessor(I, i))});
      std::sort(si.cases.begin(), si.cases.end(), [](auto& a, auto& b) { return a.first < b.first; });
      F->switches.push_back(si); emit(I_SWITCH, scalarW(LLVMTypeOf(O(0))), 0, c, 0, 0, F->switches.size() - 1); return; }
    case LLVMRet: { std::vector<int32_t> o; if (LLVMGetNumOperands(I)) o = get(O(0)); F->lists.push_back(o); emit(I_RET, 0, 0, 0, 0, 0, F->lists.size() - 1); return; }
    case LLVMUnreachable: emit(I_UNREACHABLE, 0, 0); return;
    case LLVMCall: return call(I);
    case LLVMInvoke: { call(I); u32 e = edge(bb, LLVMGetNormalDest(I)); emit(I_BR, 0, 0, 0, 0, 0, e); return; }
    case LLVMLandingPad: case LLVMResume: return bad(I);
    case LLVMFence: return;
    case LLVMAtomicRMW: {
      int32_t p = g1(O(0)), v = g1(O(1)); u16 w = scalarW(T); int32_t old = emitR(I_LOAD, w, p), nv;
      switch (LLVMGetAtomicRMWBinOp(I)) { case LLVMAtomicRMWBinOpXchg: nv = v; break; case LLVMAtomicRMWBinOpAdd: nv = emitR(I_ADD, w, old, v); break; case LLVMAtomicRMWBinOpSub: nv = emitR(I_SUB, w, old, v); break;
        case LLVMAtomicRMWBinOpAnd: nv = emitR(I_AND, w, old, v); break; case LLVMAtomicRMWBinOpOr: nv = emitR(I_OR, w, old, v); break; case LLVMAtomicRMWBinOpXor: nv = emitR(I_XOR, w, old, v); break;
        case LLVMAtomicRMWBinOpMax: nv = emitR(I_SMAX, w, old, v); break; case LLVMAtomicRMWBinOpUMax: nv = emitR(I_UMAX, w, old, v); break; default: return bad(I); }
      emit(I_STORE, w, 0, p, nv); vals[I] = {old}; return; }
    case LLVMAtomicCmpXchg: { int32_t p = g1(O(0)), c = g1(O(1)), n = g1(O(2)); u16 w = scalarW(LLVMTypeOf(O(1))); int32_t old = emitR(I_LOAD, w, p), eq = emitR(I_ICMP, 1, old, c, 0, LLVMIntEQ, w), nv = emitR(I_SELECT, w, eq, n, old); emit(I_STORE, w, 0, p, nv); vals[I] = {old, eq}; return; }
    default: break;
  }
  if (LLVMIsATerminatorInst(I) && (LLVMGetNumSuccessors(I) <= 2)) {
    if (LLVMGetNumSuccessors(I) == 1) { u32 e = edge(bb, LLVMGetSuccessor(I, 0)); emit(I_BR, 0, 0, 0, 0, 0, e); return; }
    if (LLVMGetNumSuccessors(I) == 2) { int32_t c = g1(LLVMGetCondition(I)); u32 e1 = edge(bb, LLVMGetSuccessor(I, 0)), e2 = edge(bb, LLVMGetSuccessor(I, 1)); emit(I_CONDBR, 1, 0, c, 0, 0, (u64)e1 | (u64)e2 << 32); return; }
  }
  { char* s = LLVMPrintValueToString(I); if (strstr(s, "ptrtoaddr")) { LLVMDisposeMessage(s); vals[I] = get(O(0)); return; } LLVMDisposeMessage(s); }
  bad(I);
}
void irTranslate(Func* F) {
  if (F->translated) return; F->translated = true; LLVMValueRef f = (LLVMValueRef)F->llvm; Tx t; t.F = F;
  for (LLVMValueRef p = LLVMGetFirstParam(f); p; p = LLVMGetNextParam(p)) { std::vector<int32_t> o; for (u16 w : ft(LLVMTypeOf(p)).w) { o.push_back(t.reg()); F->argw.push_back(w); } t.vals[p] = o; }
  F->nargs = F->nslots; F->retw = ft(LLVMGetReturnType(LLVMGlobalGetValueType(f))).w;
  // reverse post order so that definitions precede uses
  std::vector<LLVMBasicBlockRef> order; { std::unordered_map<LLVMBasicBlockRef, int> st; std::vector<std::pair<LLVMBasicBlockRef, unsigned>> stack; LLVMBasicBlockRef e = LLVMGetEntryBasicBlock(f); stack.push_back({e, 0}); st[e] = 1;
    while (!stack.empty()) { auto& [b, i] = stack.back(); LLVMValueRef term = LLVMGetBasicBlockTerminator(b); unsigned n = LLVMGetNumSuccessors(term); if (i < n) { LLVMBasicBlockRef s = LLVMGetSuccessor(term, i++); if (!st[s]) { st[s] = 1; stack.push_back({s, 0}); } } else { order.push_back(b); stack.pop_back(); } }
    std::reverse(order.begin(), order.end()); }
  for (auto b : order) for (LLVMValueRef I = LLVMGetFirstInstruction(b); I && LLVMGetInstructionOpcode(I) == LLVMPHI; I = LLVMGetNextInstruction(I)) { std::vector<int32_t> o; for (u16 w : ft(LLVMTypeOf(I)).w) { (void)w; o.push_back(t.reg()); } t.vals[I] = o; t.phis[b].push_back(I); }
  for (auto b : order) { t.bstart[b] = F->code.size();
    for (LLVMValueRef I = LLVMGetFirstInstruction(b); I; I = LLVMGetNextInstruction(I)) {
      unsigned ln = LLVMGetDebugLocLine(I); if (ln) { unsigned fl; const char* fn = LLVMGetDebugLocFilename(I, &fl); std::string s = (fn ? std::string(fn, fl) : "?") + ":" + std::to_string(ln); auto it = locIdx.find(s); if (it == locIdx.end()) { gLocs.push_back(s); it = locIdx.emplace(s, gLocs.size() - 1).first; } t.curLoc = it->second; }
      t.inst(I, b);
    } }
  for (size_t i = 0; i < t.pend.size(); i++) { Edge& e = F->edges[i]; auto it = t.bstart.find(t.pend[i].to); e.target = it == t.bstart.end() ? 0 : it->second;
    for (LLVMValueRef ph : t.phis[t.pend[i].to]) { unsigned n = LLVMCountIncoming(ph); for (unsigned k = 0; k < n; k++) if (LLVMGetIncomingBlock(ph, k) == t.pend[i].from) { auto src = t.get(LLVMGetIncomingValue(ph, k)); auto& dst = t.vals[ph]; for (size_t j = 0; j < dst.size(); j++) if (dst[j] != src[j]) e.moves.push_back({dst[j], src[j]}); break; } } }
}
