// LLVM bitcode -> compact scalar register code.
#pragma once
#include "expr.hpp"
#include <map>
#include <memory>
#include <unordered_map>
struct Slot { u64 v; E e; };
enum IOp : u16 {
  I_MOV, I_ADD, I_SUB, I_MUL, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR, I_UDIV, I_SDIV, I_UREM, I_SREM,
  I_ICMP /*imm=pred*/, I_FCMP /*imm=pred*/, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT,
  I_LOAD, I_STORE, I_PTRADD /*a + imm*/, I_PTRADDX /*a + sext(b)*imm*/, I_ALLOCA,
  I_BR, I_CONDBR, I_SWITCH, I_CALL, I_ICALL, I_RET, I_UNREACHABLE,
  I_FOP /*K in imm low 8, aux imm>>8*/, I_CONCAT, I_EXTRACT /*imm=lo*/, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_BITREV,
  I_FSHL, I_FSHR, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT,
  I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, /* overflow bit only */
  I_FPCLASS /*imm mask*/, I_FMIN /*imm kind*/, I_UCMP, I_SCMP, I_MEMCPY, I_MEMSET, I_VECIDX, I_ASSUME, I_TRAP, I_BAD,
};
struct Inst { u16 op, w, w2; u16 pad; int32_t dst, a, b, c; u64 imm; };
struct Edge { u32 target; std::vector<std::pair<int32_t, int32_t>> moves; std::vector<u16> widths; };
struct Func;
struct CallInfo { Func* callee = nullptr; int32_t calleePtr = 0; std::vector<int32_t> args; std::vector<u16> argw; int32_t dst = -1; u32 nret = 0; std::vector<u16> retw; };
struct SwitchInfo { std::vector<std::pair<u128, u32>> cases; u32 def; };
struct Func {
  std::string name; void* llvm = nullptr; bool translated = false, isDecl = false; u32 id = 0;
  std::vector<Inst> code; std::vector<u32> loc; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<std::vector<int32_t>> lists;
  u32 nslots = 0, nargs = 0; std::vector<u16> argw, retw; int panicKind = 0; int ext = -1; u64 entered = 0; u64 bigArrays = 0;
};
struct GlobalDef { std::string name; void* llvm; u64 addr; u64 size; bool ro; bool inited = false; bool tls = false; };
void irLoad(const char* path);
Func* irFunc(const std::string& name);
void irTranslate(Func* f);
Func* irFuncByAddr(u64 addr);
extern std::vector<Func*> gFuncs; extern std::vector<GlobalDef> gGlobals;
extern std::vector<Slot> gConsts;
extern std::vector<std::string> gLocs;
u64 irFuncAddr(Func* f);
// writes initial bytes of global into out
void irInitGlobal(GlobalDef& g, std::vector<u8>& out);
constexpr unsigned OSHIFT = 36; constexpr u64 OBASE = 0x10000; constexpr u64 FUNC_OBJ = 1u << 22; constexpr u64 GLOBAL_OBJ0 = 16;
