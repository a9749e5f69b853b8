// Exact fast path for byte-wise loops (xor_u8_array and the like): a header with a single
// counter and a body that only loads, combines and stores single bytes at base+counter.
// Produces the same abstract state as interpreting the loop instruction by instruction.
#include "interp.h"
using namespace llvm;

// Shape recognition; the result is cached per header block.
static bool shape(Fn* f, int h, LoopShape& L) {
  BB& H = f->bbs[h]; const Inst& t = f->code[H.end - 1];
  if (t.op != I_CONDBR || H.end - H.start != 2) return false;
  const Inst& cmp = f->code[H.start]; if (cmp.op != I_ICMP || t.a != cmp.dst) return false;
  if (cmp.sub != CmpInst::ICMP_ULT && cmp.sub != CmpInst::ICMP_NE) return false;
  int b = t.s0; if (b < 0 || b == h) return false; BB& B = f->bbs[b]; const Inst& bt = f->code[B.end - 1];
  if (bt.op != I_BR || bt.s0 != h || !B.phiIn.empty()) return false;
  auto it = H.phiIn.find(b); if (it == H.phiIn.end() || it->second.size() != 1) return false;
  L.iv = it->second[0].dst; int nx = it->second[0].src; if (cmp.a != L.iv) return false; L.bound = cmp.b; L.w = cmp.w;
  std::map<int, int> val; std::map<int, std::pair<int, i64>> ptr; std::set<int> def; int ivx = -1; bool stepOk = false;
  auto isIv = [&](int o) { return o == L.iv || (ivx >= 0 && o == ivx); };
  auto operand = [&](int o) { auto q = val.find(o); if (q != val.end()) return q->second; if (o >= 0 && def.count(o)) return -1000; LoopOp u; u.k = 3; u.a = o; L.ops.push_back(u); val[o] = L.ops.size() - 1; return val[o]; };
  for (int i = B.start; i + 1 < B.end; i++) { const Inst& x = f->code[i]; if (x.dst >= 0) def.insert(x.dst);
    switch (x.op) {
    case I_NOP: break;
    case I_GEP: { if (x.idx.size() != 1 || !isIv(x.idx[0].first) || x.idx[0].second != 1 || x.imm != 0) return false; if (x.a >= 0 && def.count(x.a) && x.a != x.dst) return false; ptr[x.dst] = {x.a, 0}; break; }
    case I_LOAD: { auto p = ptr.find(x.a); if (p == ptr.end() || x.ty.k != T_INT || x.ty.w != 8) return false; LoopOp u; u.k = 0; u.a = p->second.first; u.inst = i; L.ops.push_back(u); val[x.dst] = L.ops.size() - 1; break; }
    case I_STORE: { auto p = ptr.find(x.a); if (p == ptr.end() || x.ty.k != T_INT || x.ty.w != 8 || x.sub) return false; int v = operand(x.b); if (v < 0) return false; LoopOp u; u.k = 2; u.a = p->second.first; u.b = v; u.inst = i; L.ops.push_back(u); break; }
    case I_ZEXT: if (x.a == L.iv) { if (ivx >= 0) return false; ivx = x.dst; break; } // fallthrough
    case I_TRUNC: { if (x.ty.k != T_INT) return false; if (x.op == I_TRUNC && x.ty.w < 8) return false; int v = operand(x.a); if (v < 0) return false; val[x.dst] = v; break; }
    case I_BIN: { if (x.dst == nx) { if (x.sub != Instruction::Add || x.a != L.iv || x.b >= 0) return false; stepOk = true; L.stepC = x.b; break; }
        if (x.ty.k != T_INT || (x.sub != Instruction::Xor && x.sub != Instruction::And && x.sub != Instruction::Or)) return false; int p = operand(x.a), q = operand(x.b); if (p < 0 || q < 0) return false; LoopOp u; u.k = 1; u.sub = x.sub; u.a = p; u.b = q; L.ops.push_back(u); val[x.dst] = L.ops.size() - 1; break; }
    default: return false; } }
  if (!stepOk) return false;
  // nothing computed in the body may be live after the loop
  const BB& X = f->bbs[t.s1]; for (int d : def) if (d != nx && ((X.liveIn[d >> 6] >> (d & 63)) & 1)) return false;
  if ((X.liveIn[nx >> 6] >> (nx & 63)) & 1) return false;
  L.body = b; return !L.ops.empty(); }

// Constants in `ops` that exceed a byte are only admissible when the result is masked by an 8-bit store; keep it simple: bytes only.
bool Interp::accelLoop(Frame& F, Cur& c, int h) {
  Fn* f = F.f; BB& H = f->bbs[h];
  if (H.accel == 1) return false;
  if (H.accel == 0) { auto L = std::make_unique<LoopShape>(); if (!shape(f, h, *L)) { H.accel = 1; return false; } H.loop = L.release(); H.accel = 2; }
  LoopShape& L = *H.loop; V* R = c.regs.data();
#define OPD(o) ((o) >= 0 ? R[o] : P.consts[~(o)])
  V iv = R[L.iv], N = OPD(L.bound), st = OPD(L.stepC); if (iv.k != K_INT || N.k != K_INT || !iv.isC() || !N.isC() || !st.isC() || st.lo != 1 || iv.ext || N.ext || iv.label || N.label || N.lo <= iv.lo) return false;
  u64 n = N.lo - iv.lo; if (n < 4 || n > (1u << 26)) return false;
  struct S { u32 obj; u64 off; Obj* o; const Page* pg; Page* wp; }; S str[24]; if (L.ops.size() > 24) return false; struct Bv { u8 lo, hi; u32 label, id; }; Bv r[24];
  for (size_t i = 0; i < L.ops.size(); i++) { LoopOp& u = L.ops[i];
    if (u.k == 3) { V v = OPD(u.a); if (v.k != K_INT || v.hi > 255 || v.ext) return false; r[i] = {(u8)v.lo, (u8)v.hi, v.label, v.idw == 1 ? v.id : 0}; }
    if (u.k == 0 || u.k == 2) { V p = OPD(u.a); if (p.k != K_PTR || p.lo != p.hi || !p.obj || p.label || p.ext || (i64)p.lo < 0) return false; Obj* o = c.st.objs.get(p.obj); const ObjInfo& inf = gObjInfo[p.obj]; if (!o || o->st != S_ALIVE || inf.symbolic || p.lo + iv.lo + n > o->size) return false;
      if (u.k == 2 && (inf.readonly || inf.kind == O_GLOBAL || inf.constant || (inf.limit && p.lo + iv.lo + n > inf.limit))) return false;
      u64 a = p.lo + iv.lo; if (!o->cells.empty()) for (auto& q : o->cells) if (q.first < a + n && q.first + q.second.pad > a) return false;
      str[i] = {p.obj, a, nullptr, nullptr, nullptr}; } }
  for (size_t i = 0; i < L.ops.size(); i++) if (L.ops[i].k == 2) { Obj* o = mutObj(c.st, str[i].obj); o->touched = true; if (!c.st.hctx.empty()) for (auto& hc : c.st.hctx) if ((u32)(hc.first >> 32) == str[i].obj) return false; }
  for (size_t i = 0; i < L.ops.size(); i++) if (L.ops[i].k == 0 || L.ops[i].k == 2) { str[i].o = c.st.objs.get(str[i].obj); accesses += n; if (!muted) memSites.insert(f->code[L.ops[i].inst].I); }
  size_t K = L.ops.size();
  for (u64 k = 0; k < n; k++)
    for (size_t i = 0; i < K; i++) { LoopOp& u = L.ops[i];
      switch (u.k) {
      case 0: { Obj* o = str[i].o; u64 off = str[i].off + k; const Page* p = o->pages[off / PG].p; u32 q = off % PG; if (p) r[i] = {p->lo[q], p->hi[q], p->label[q], p->id[q]}; else r[i] = {o->dlo, o->dhi, o->dlabel, o->dids ? (u32)(o->dids + off) : 0}; break; }
      case 1: { const Bv &a = r[u.a], &b = r[u.b]; u32 lab = labComb(a.label, b.label); bool ac = a.lo == a.hi, bc = b.lo == b.hi; Bv v{0, 255, lab, 0}; 
          if (ac && bc) { u8 x = u.sub == Instruction::Xor ? a.lo ^ b.lo : u.sub == Instruction::And ? a.lo & b.lo : a.lo | b.lo; v.lo = v.hi = x; }
          else { u8 top = 255; auto up = [](u8 x) { x |= x >> 1; x |= x >> 2; x |= x >> 4; return x; };
            if (u.sub == Instruction::Xor) { if (bc && b.lo == 0) { v = a; v.label = lab; } else if (ac && a.lo == 0) { v = b; v.label = lab; } else if (a.id && a.id == b.id) { v.lo = v.hi = 0; } else if (terms && a.id && b.id) { u32 t = xorTermId(a.id, b.id); if (!t) v.lo = v.hi = 0; else v.id = t; } else { v.hi = up(a.hi | b.hi); } }
            else if (u.sub == Instruction::Or) { if (bc && b.lo == 0) { v = a; v.label = lab; } else if (ac && a.lo == 0) { v = b; v.label = lab; } else { v.lo = std::max(a.lo, b.lo); v.hi = up(a.hi | b.hi); } }
            else { if ((bc && b.lo == 0) || (ac && a.lo == 0)) { v.lo = v.hi = 0; } else if (bc && b.lo == 255) { v = a; v.label = lab; } else if (ac && a.lo == 255) { v = b; v.label = lab; } else v.hi = std::min(a.hi, b.hi); } (void)top; }
          r[i] = v; break; }
      case 2: { Obj* o = str[i].o; u64 off = str[i].off + k; Ref<Page>& pr = o->pages[off / PG]; Page* p = (pr && pr.p->rc == 1) ? pr.p : page(o, off); u32 q = off % PG; const Bv& v = r[u.b]; p->lo[q] = v.lo; p->hi[q] = v.hi; p->label[q] = v.label; p->id[q] = v.id ? v.id : fresh(1); break; }
      } }
  steps += n * 4; R[L.iv] = N; R[L.iv].id = 0; R[L.iv].idw = 0; return true; }
