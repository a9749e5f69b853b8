#include "prog.h"
using namespace llvm;
bool Prog::load(const std::string& path) { SMDiagnostic e; M = parseIRFile(path, e, ctx); if (!M) { e.print("absint", errs()); return false; } 
  u32 gi = 1; for (auto& G : M->globals()) { globals[&G] = gi; globalList.push_back({&G, gi}); gi++; }
  return true; }
std::string whereOf(const Instruction* I) { if (!I) return "?"; const DebugLoc& L = I->getDebugLoc(); std::string fn = I->getFunction()->getName().str(); if (!L) return fn; auto* sc = cast<DIScope>(L.getScope()); std::string f = sc->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return fn + " (" + f + ":" + std::to_string(L.getLine()) + ")"; }
Ty Prog::ty(Type* t) { Ty r; r.t = t; const DataLayout& DL = M->getDataLayout();
  if (t->isVoidTy()) return r;
  if (auto* it = dyn_cast<IntegerType>(t)) { r.w = it->getBitWidth(); r.k = r.w <= 64 ? T_INT : T_WIDE; r.bytes = DL.getTypeStoreSize(t); return r; }
  if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; r.bytes = 8; return r; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { r.k = T_VEC; r.n = vt->getNumElements(); r.w = vt->getElementType()->getScalarSizeInBits(); r.bytes = DL.getTypeStoreSize(t); return r; }
  if (t->isStructTy() || t->isArrayTy()) { r.k = T_AGG; r.bytes = DL.getTypeAllocSize(t); r.n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); return r; }
  if (t->isFloatingPointTy()) { r.k = T_WIDE; r.w = t->getPrimitiveSizeInBits(); r.bytes = DL.getTypeStoreSize(t); return r; }
  return r; }
V Prog::constVal(const Constant* C) {
  Ty t = ty(C->getType());
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (t.k == T_WIDE) { V v; v.hi = ~0ull; if (ci->getValue().getActiveBits() <= 64) { v.lo = v.hi = ci->getZExtValue(); } return v; } return mkC(ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return mkNull();
  if (isa<UndefValue>(C)) { u32 l = labelAtom(A_UNINIT); if (isa<PoisonValue>(C)) l = 0; V v = mkTop(64, l); if (t.k == T_PTR) return mkTopPtr(l); if (t.k == T_VEC) { v.k = K_VEC; v.obj = internLanes(std::vector<u32>(t.n, l)); } else if (t.k == T_AGG) { v.k = K_AGG; std::vector<V> e(t.n); for (unsigned i = 0; i < t.n; i++) e[i] = constVal(UndefValue::get(t.t->isStructTy() ? t.t->getStructElementType(i) : t.t->getArrayElementType())); gAggs.push_back(e); v.obj = gAggs.size() - 1; } else if (t.k == T_INT) v.hi = maskW(t.w); return v; }
  if (auto* f = dyn_cast<Function>(C)) { V v; v.k = K_FN; v.obj = fn(f)->id; return v; }
  if (auto* g = dyn_cast<GlobalVariable>(C)) return mkPtr(globals[g], 0);
  if (t.k == T_VEC) { V v; v.k = K_VEC; v.obj = internLanes(std::vector<u32>(t.n, 0)); return v; }
  if (t.k == T_AGG) { V v; v.k = K_AGG; std::vector<V> e; for (unsigned i = 0; i < t.n; i++) e.push_back(constVal(C->getAggregateElement(i))); gAggs.push_back(e); v.obj = gAggs.size() - 1; return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(M->getDataLayout(), off)) { V b = constVal(cast<Constant>(ce->getOperand(0))); if (b.k == K_PTR) { b.lo += off.getSExtValue(); b.hi = b.lo; return b; } } }
    if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) return constVal(cast<Constant>(ce->getOperand(0)));
  }
  if (isa<ConstantAggregateZero>(C)) return mkC(0);
  unsupported.push_back("constant"); return t.k == T_PTR ? mkTopPtr(0) : mkTop(64, 0);
}
int Prog::constant(const Constant* C) { auto it = cmap.find(C); if (it != cmap.end()) return it->second; V v = constVal(C); int i = consts.size(); consts.push_back(v); cmap[C] = i; return i; }
Fn* Prog::fn(const Function* F) { auto it = fns.find(F); if (it != fns.end()) return it->second; Fn* f = new Fn; f->F = F; f->name = F->getName().str(); f->hasBody = !F->isDeclaration(); f->id = fnv.size(); fnv.push_back(f); fns[F] = f; byName[f->name] = f; return f; }

void Prog::compile(Fn* f) {
  if (f->compiled) return; f->compiled = true;
  const Function& F = *f->F; const DataLayout& DL = M->getDataLayout();
  std::map<const Value*, int> reg; f->retTy = ty(F.getReturnType()); f->nargs = F.arg_size();
  for (auto& A : F.args()) { reg[&A] = f->nregs++; f->regTy.push_back(ty(A.getType())); }
  std::map<const BasicBlock*, int> bbi; for (auto& B : F) { bbi[&B] = f->bbs.size(); f->bbs.push_back(BB()); for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = f->nregs++; f->regTy.push_back(ty(I.getType())); } }
  f->defs.assign(f->nregs, -1);
  auto opnd = [&](const Value* v) -> int { auto it = reg.find(v); if (it != reg.end()) return it->second; if (auto* c = dyn_cast<Constant>(v)) return ~constant(c); if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~constant(ConstantInt::getFalse(ctx)); unsupported.push_back("operand in " + f->name); return ~constant(ConstantInt::getFalse(ctx)); };
  for (auto& B : F) { int b = bbi[&B]; BB& bb = f->bbs[b]; bb.start = f->code.size();
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { auto& mv = f->bbs[b].phiIn[bbi[P->getIncomingBlock(i)]]; bool dup = false; for (auto& m : mv) if (m.dst == reg[P]) dup = true; if (!dup) mv.push_back({reg[P], opnd(P->getIncomingValue(i))}); } continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst x; x.I = &I; x.bb = b; if (reg.count(&I)) x.dst = reg[&I]; x.ty = ty(I.getType());
      if (auto* A = dyn_cast<AllocaInst>(&I)) { x.op = I_ALLOCA; x.imm = DL.getTypeAllocSize(A->getAllocatedType()); x.a = opnd(A->getArraySize()); }
      else if (isa<LoadInst>(&I)) { x.op = I_LOAD; x.a = opnd(I.getOperand(0)); x.al = cast<LoadInst>(I).getAlign().value(); }
      else if (auto* S = dyn_cast<StoreInst>(&I)) { x.op = I_STORE; x.a = opnd(S->getPointerOperand()); x.b = opnd(S->getValueOperand()); x.ty = ty(S->getValueOperand()->getType()); x.sub = S->isVolatile(); x.al = S->getAlign().value(); }
      else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) { x.op = I_GEP; x.a = opnd(G->getPointerOperand()); MapVector<Value*, APInt> vo; APInt co(64, 0); if (G->getType()->isVectorTy() || !cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co)) unsupported.push_back("gep in " + f->name); x.imm = co.getSExtValue(); for (auto& p : vo) { int o = opnd(p.first); x.idx.push_back({o, p.second.getSExtValue()}); x.argTy.push_back(ty(p.first->getType())); } }
      else if (auto* Bo = dyn_cast<BinaryOperator>(&I)) { x.op = I_BIN; x.sub = Bo->getOpcode(); x.w = x.ty.w; if (auto* oo = dyn_cast<OverflowingBinaryOperator>(Bo)) if (oo->hasNoSignedWrap() && x.ty.k == T_INT) x.al = 1; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); if (Bo->getOpcode() == Instruction::And && x.ty.k == T_VEC) for (int q = 0; q < 2; q++) if (auto* mc = dyn_cast<Constant>(I.getOperand(q))) for (unsigned e = 0; e < x.ty.n; e++) { Constant* el = mc->getAggregateElement(e); if (el && el->isNullValue()) x.args.push_back(e); } }
      else if (auto* C = dyn_cast<ICmpInst>(&I)) { x.op = I_ICMP; x.sub = C->getPredicate(); Ty t = ty(I.getOperand(0)->getType()); x.w = t.w; x.argTy.push_back(t); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); }
      else if (isa<TruncInst>(&I)) { x.op = I_TRUNC; x.a = opnd(I.getOperand(0)); x.w = x.ty.w; x.argTy.push_back(ty(I.getOperand(0)->getType())); }
      else if (isa<ZExtInst>(&I)) { x.op = I_ZEXT; x.a = opnd(I.getOperand(0)); x.w = x.ty.w; x.argTy.push_back(ty(I.getOperand(0)->getType())); }
      else if (isa<SExtInst>(&I)) { x.op = I_SEXT; x.a = opnd(I.getOperand(0)); x.w = x.ty.w; x.argTy.push_back(ty(I.getOperand(0)->getType())); }
      else if (isa<PtrToIntInst>(&I)) { x.op = I_P2I; x.a = opnd(I.getOperand(0)); }
      else if (isa<IntToPtrInst>(&I)) { x.op = I_I2P; x.a = opnd(I.getOperand(0)); }
      else if (isa<BitCastInst>(&I)) { x.op = I_BITCAST; x.a = opnd(I.getOperand(0)); x.argTy.push_back(ty(I.getOperand(0)->getType())); }
      else if (isa<FreezeInst>(&I)) { x.op = I_FREEZE; x.a = opnd(I.getOperand(0)); }
      else if (isa<SelectInst>(&I) && isa<Constant>(I.getOperand(0)) && isa<FixedVectorType>(I.getOperand(0)->getType())) { auto* mc = cast<Constant>(I.getOperand(0)); unsigned n = cast<FixedVectorType>(mc->getType())->getNumElements(); x.op = I_SHUF; x.a = opnd(I.getOperand(1)); x.b = opnd(I.getOperand(2)); for (unsigned q = 0; q < n; q++) { Constant* e = mc->getAggregateElement(q); x.args.push_back(e && e->isOneValue() ? (int)q : (int)(n + q)); } }
      else if (isa<SelectInst>(&I)) { x.op = I_SELECT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); }
      else if (isa<ExtractElementInst>(&I)) { x.op = I_EXTELT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.w = x.ty.w; }
      else if (isa<InsertElementInst>(&I)) { x.op = I_INSELT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); }
      else if (auto* SV = dyn_cast<ShuffleVectorInst>(&I)) { x.op = I_SHUF; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); for (int m : SV->getShuffleMask()) x.args.push_back(m); }
      else if (auto* EV = dyn_cast<ExtractValueInst>(&I)) { x.op = I_EXTVAL; x.a = opnd(I.getOperand(0)); for (unsigned m : EV->indices()) x.args.push_back(m); }
      else if (auto* IV = dyn_cast<InsertValueInst>(&I)) { x.op = I_INSVAL; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); for (unsigned m : IV->indices()) x.args.push_back(m); }
      else if (auto* CB = dyn_cast<CallBase>(&I)) { x.op = I_CALL; if (auto* cf = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) x.callee = fn(cf); else x.a = opnd(CB->getCalledOperand()); if (CB->isInlineAsm()) x.sub = 1; for (unsigned i = 0; i < CB->arg_size(); i++) if (auto pa = CB->getParamAlign(i); pa && pa->value() > 1 && !CB->isByValArgument(i) && CB->getArgOperand(i)->getType()->isPointerTy()) x.idx.push_back({(int)i, (i64)pa->value()}); for (unsigned i = 0; i < CB->arg_size(); i++) { Value* av = CB->getArgOperand(i); if (isa<MetadataAsValue>(av)) { x.args.push_back(~constant(ConstantInt::getFalse(ctx))); x.argTy.push_back(Ty()); continue; } x.args.push_back(opnd(av)); Ty t = ty(av->getType()); if (CB->isByValArgument(i)) t.n = 0x80000000u | (u32)DL.getTypeAllocSize(CB->getParamByValType(i)); x.argTy.push_back(t); } }
      else if (isa<ReturnInst>(&I)) { x.op = I_RET; x.sub = I.getNumOperands() > 0; if (x.sub) x.a = opnd(I.getOperand(0)); }
      else if (auto* Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { x.op = I_CONDBR; x.a = opnd(Br->getCondition()); x.s0 = bbi[Br->getSuccessor(0)]; x.s1 = bbi[Br->getSuccessor(1)]; } else { x.op = I_BR; x.s0 = bbi[Br->getSuccessor(0)]; } }
      else if (auto* Sw = dyn_cast<SwitchInst>(&I)) { x.op = I_SWITCH; x.a = opnd(Sw->getCondition()); x.w = Sw->getCondition()->getType()->getIntegerBitWidth(); x.s0 = bbi[Sw->getDefaultDest()]; for (auto& c : Sw->cases()) x.idx.push_back({bbi[c.getCaseSuccessor()], (i64)c.getCaseValue()->getZExtValue()}); }
      else if (isa<UnreachableInst>(&I)) x.op = I_UNREACH;
      else { x.op = I_OTHER; unsupported.push_back(std::string(I.getOpcodeName()) + " in " + f->name); }
      if (x.dst >= 0) f->defs[x.dst] = f->code.size();
      f->code.push_back(std::move(x));
    }
    f->bbs[b].end = f->code.size(); }
  // post dominators
  PostDominatorTree PDT(const_cast<Function&>(F));
  for (auto& B : F) { auto* n = PDT.getNode(const_cast<BasicBlock*>(&B)); int b = bbi[&B]; if (n && n->getIDom() && n->getIDom()->getBlock()) f->bbs[b].ipdom = bbi[n->getIDom()->getBlock()]; }
  for (auto& bb : f->bbs) {
    // trivial: nothing but phis and a conditional branch on one of them
    if (bb.end - bb.start == 1 && f->code[bb.start].op == I_CONDBR && !bb.phiIn.empty()) { for (auto& kv : bb.phiIn) for (auto& m : kv.second) if (m.dst == f->code[bb.start].a) bb.trivial = true; }
    // tail: straight line to return
    int cur = &bb - &f->bbs[0]; int n = 0; std::set<int> seen; for (;;) { if (!seen.insert(cur).second) break; BB& c = f->bbs[cur]; n += c.end - c.start; if (n > 24) break; Inst& t = f->code[c.end - 1]; bool hasCall = false; for (int i = c.start; i < c.end; i++) if (f->code[i].op == I_CALL && !(f->code[i].callee && (f->code[i].callee->name.compare(0, 5, "llvm.") == 0 || f->code[i].callee->name == "free"))) hasCall = true; if (hasCall) break; if (t.op == I_RET) { bb.tail = true; break; } if (t.op != I_BR) break; cur = t.s0; }
  }
  // post dominators of the graph without the edges that only lead to a return: where the arms of a branch meet again if neither returned
  { int nb = f->bbs.size(); auto kids = [&](int b) { std::vector<int> su; Inst& t = f->code[f->bbs[b].end - 1]; if (t.s0 >= 0) su.push_back(t.s0); if (t.s1 >= 0) su.push_back(t.s1); if (t.op == I_SWITCH) for (auto& p : t.idx) su.push_back(p.first); return su; };
    std::vector<std::vector<int>> su(nb); for (int b = 0; b < nb; b++) for (int s : kids(b)) if (!f->bbs[s].tail && f->code[f->bbs[s].end - 1].op != I_UNREACH) su[b].push_back(s);
    size_t W = (nb + 63) / 64; std::vector<std::vector<u64>> pd(nb, std::vector<u64>(W, ~0ull)); bool ch = true;
    while (ch) { ch = false; for (int b = nb - 1; b >= 0; b--) { std::vector<u64> v(W, su[b].empty() ? 0 : ~0ull); for (int s : su[b]) for (size_t w = 0; w < W; w++) v[w] &= pd[s][w]; v[b >> 6] |= 1ull << (b & 63); if (v != pd[b]) { pd[b] = v; ch = true; } } }
    auto cnt = [&](int b) { int k = 0; for (u64 w : pd[b]) k += __builtin_popcountll(w); return k; };
    for (int b = 0; b < nb; b++) { int want = cnt(b) - 1, best = -1; if (want > 0 && want < nb) for (int q = 0; q < nb; q++) if (q != b && (pd[b][q >> 6] >> (q & 63) & 1) && cnt(q) == want) { best = q; break; } f->bbs[b].ipdom2 = best; } }
  // loop exits: a branch inside a cycle with a successor from which the branch cannot be reached again
  { int nb = f->bbs.size(); auto succs = [&](int b) { std::vector<int> su; Inst& t = f->code[f->bbs[b].end - 1]; if (t.s0 >= 0) su.push_back(t.s0); if (t.s1 >= 0) su.push_back(t.s1); if (t.op == I_SWITCH) for (auto& p : t.idx) su.push_back(p.first); return su; };
    auto reaches = [&](int from, int to) { std::vector<u8> seen(nb); std::vector<int> st{from}; while (!st.empty()) { int b = st.back(); st.pop_back(); if (b == to) return true; if (seen[b]) continue; seen[b] = 1; for (int s : succs(b)) st.push_back(s); } return false; };
    for (int b = 0; b < nb; b++) { for (int s : succs(b)) if (reaches(s, b)) f->bbs[b].inLoop = true; }
    for (int b = 0; b < nb; b++) { Inst& t = f->code[f->bbs[b].end - 1]; if (t.op != I_CONDBR && t.op != I_SWITCH) continue; bool in = false, out = false; for (int s : succs(b)) (reaches(s, b) ? in : out) = true; f->bbs[b].loopExit = in && out; }
    // exits of small call-free loops with several exits (searches and comparisons that stop early)
    for (int b = 0; b < nb; b++) if (f->bbs[b].loopExit) { int exits = 0, size = 0; bool calls = false; for (int k = 0; k < nb && size < 14; k++) if (f->bbs[k].inLoop && (k == b || (reaches(b, k) && reaches(k, b)))) { size++; exits += f->bbs[k].loopExit; for (int i = f->bbs[k].start; i < f->bbs[k].end; i++) calls |= f->code[i].op == I_CALL; } f->bbs[b].scan = exits > 1 && !calls && size < 14; } }
  // liveness
  int nw = (f->nregs + 63) / 64; int nb = f->bbs.size(); std::vector<std::vector<u64>> use(nb, std::vector<u64>(nw)), def(nb, std::vector<u64>(nw));
  auto setb = [&](std::vector<u64>& v, int r) { v[r >> 6] |= 1ull << (r & 63); }; auto tst = [&](const std::vector<u64>& v, int r) { return (v[r >> 6] >> (r & 63)) & 1; };
  for (int b = 0; b < nb; b++) { BB& bb = f->bbs[b]; for (auto& kv : bb.phiIn) for (auto& m : kv.second) setb(def[b], m.dst);
    for (int i = bb.start; i < bb.end; i++) { Inst& x = f->code[i]; auto u = [&](int o) { if (o >= 0 && !tst(def[b], o)) setb(use[b], o); }; switch (x.op) { case I_BR: case I_UNREACH: case I_NOP: break; case I_CALL: if (!x.callee && !x.sub) u(x.a); for (int o : x.args) u(o); break; case I_GEP: u(x.a); for (auto& p : x.idx) u(p.first); break; case I_SHUF: u(x.a); u(x.b); break; case I_EXTVAL: u(x.a); break; case I_INSVAL: u(x.a); u(x.b); break; case I_RET: if (x.sub) u(x.a); break; case I_SELECT: case I_INSELT: u(x.a); u(x.b); u(x.c); break; case I_BIN: case I_ICMP: case I_STORE: case I_EXTELT: u(x.a); u(x.b); break; default: u(x.a); } if (x.dst >= 0) setb(def[b], x.dst); } }
  // callee indirect operand 0 conflicts with "a" default 0: handled above (a>0); args of register 0 are covered by args
  for (auto& bb : f->bbs) bb.liveIn.assign(nw, 0);
  bool ch = true; while (ch) { ch = false; for (int b = nb - 1; b >= 0; b--) { std::vector<u64> out(nw); Inst& t = f->code[f->bbs[b].end - 1]; std::vector<int> su; if (t.s0 >= 0) su.push_back(t.s0); if (t.s1 >= 0) su.push_back(t.s1); if (t.op == I_SWITCH) for (auto& p : t.idx) su.push_back(p.first);
      for (int s : su) { for (int w = 0; w < nw; w++) out[w] |= f->bbs[s].liveIn[w]; auto it = f->bbs[s].phiIn.find(b); if (it != f->bbs[s].phiIn.end()) for (auto& m : it->second) if (m.src >= 0) setb(out, m.src); }
      // a register defined by a branch condition chain must survive for refinement: keep simple
      for (int w = 0; w < nw; w++) { u64 n = use[b][w] | (out[w] & ~def[b][w]); if (n & ~f->bbs[b].liveIn[w]) { f->bbs[b].liveIn[w] |= n; ch = true; } } } }
  // phi destinations are live-in by convention (they are assigned on the edge)
  for (auto& bb : f->bbs) for (auto& kv : bb.phiIn) for (auto& m : kv.second) setb(bb.liveIn, m.dst);
  for (auto& x : f->code) { auto mv = [&](int to) -> const std::vector<PhiMove>* { if (to < 0) return nullptr; auto it = f->bbs[to].phiIn.find(x.bb); return it == f->bbs[to].phiIn.end() ? nullptr : &it->second; }; if (x.op == I_BR || x.op == I_CONDBR || x.op == I_SWITCH) { x.m0 = mv(x.s0); x.m1 = mv(x.s1); } }
}
