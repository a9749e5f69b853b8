// LLVM IR -> compact register program
#pragma once
#include "core.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"

enum TyK : u8 { T_VOID, T_INT, T_WIDE, T_PTR, T_VEC, T_AGG };
struct Ty { TyK k = T_VOID; u32 w = 0; u32 n = 0; u32 bytes = 0; const llvm::Type* t = nullptr; };

enum Opc : u8 { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_ICMP, I_TRUNC, I_ZEXT, I_SEXT, I_PTRCAST, I_P2I, I_I2P, I_BITCAST, I_SELECT, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACH, I_EXTELT, I_INSELT, I_SHUF, I_EXTVAL, I_INSVAL, I_NOP, I_FREEZE, I_OTHER };

struct Fn;
struct Inst {
  u8 op = 0; u8 sub = 0; u16 w = 0; int dst = -1;
  int a = 0, b = 0, c = 0;               // operands: >=0 register, <0 constant ~x
  Ty ty;                                 // result type (or stored type)
  i64 imm = 0;
  std::vector<std::pair<int, i64>> idx;  // gep: operand*scale ; switch: (succ, case value); call: args in .args
  std::vector<int> args; std::vector<Ty> argTy;
  Fn* callee = nullptr; const llvm::Instruction* I = nullptr;
  int s0 = -1, s1 = -1;                  // successors
  const std::vector<struct PhiMove>* m0 = nullptr; const std::vector<struct PhiMove>* m1 = nullptr; // phi moves on the edges
  int bb = 0; u32 al = 0;                // alignment the access assumes; 1 on arithmetic that must not overflow as signed
};
struct PhiMove { int dst, src; };
struct LoopOp { int k = 0, sub = 0, a = 0, b = 0, inst = 0; };   // k: 0 load, 1 combine, 2 store, 3 invariant
struct LoopShape { int iv = 0, bound = 0, w = 0, stepC = 0, body = 0; std::vector<LoopOp> ops; };
struct BB { int start = 0, end = 0; std::vector<int> preds; std::map<int, std::vector<PhiMove>> phiIn; int ipdom = -1, ipdom2 = -1; bool trivial = false; bool tail = false; bool loopExit = false, inLoop = false, scan = false; u8 accel = 0; LoopShape* loop = nullptr; std::vector<u64> liveIn; };
struct Fn {
  std::string name; const llvm::Function* F = nullptr; bool hasBody = false, compiled = false; int id = 0; u8 pure = 2;
  int nargs = 0, nregs = 0; std::vector<Inst> code; std::vector<BB> bbs; std::vector<Ty> regTy; std::vector<int> defs; Ty retTy; int model = -1, mdl = -1;
  std::unordered_map<u64, std::vector<std::pair<std::vector<V>, V>>> memo; u64 calls = 0, memoHits = 0; std::set<int> branchSites;
};
struct Prog {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M;
  std::vector<V> consts; std::map<const llvm::Constant*, int> cmap;
  std::map<const llvm::Function*, Fn*> fns; std::map<std::string, Fn*> byName; std::vector<Fn*> fnv;
  std::map<const llvm::GlobalVariable*, u32> globals; std::vector<std::pair<const llvm::GlobalVariable*, u32>> globalList;
  bool load(const std::string& path);
  Fn* fn(const llvm::Function* F);
  void compile(Fn*);
  int constant(const llvm::Constant* C);
  V constVal(const llvm::Constant* C);
  Ty ty(llvm::Type* t);
  std::vector<std::string> unsupported;
};
std::string whereOf(const llvm::Instruction* I);
std::string srcFile(const llvm::Instruction* I);
