// Control: path exploration, joins, widening fixpoints, refinement, calls.
#include "interp.h"
using namespace llvm;
static const u8 DEADK = 0xFF;
static inline bool dead(const V& v) { return (u8)v.k == DEADK; }

// ---------------------------------------------------------------- infrastructure
std::string Interp::stackStr() { std::string r; for (Frame* f = curFrame; f; f = f->up) { if (!r.empty()) r += " < "; r += f->f->name; if (f->site && f->site->I && f->up) { const DebugLoc& L = f->site->I->getDebugLoc(); if (L) r += "@" + std::to_string(L.getLine()); } } return r; }
std::string Interp::here() { if (curInst && curInst->I) return whereOf(curInst->I); return curFrame ? curFrame->f->name : std::string("?"); }
std::string Interp::objName(u32 id) { ObjInfo& i = gObjInfo[id]; if (i.name.empty() && i.site) { auto* I = (const Instruction*)i.site; std::string n; if (auto* A = dyn_cast<AllocaInst>(I)) n = "local '" + A->getName().str() + "' of " + I->getFunction()->getName().str(); else n = std::string(i.kind == O_HEAP ? "heap block allocated in " : "object of ") + whereOf(I); i.name = n; } return i.name; }
void Interp::report(const char* kind, const std::string& msg, u32 label, bool deferred, const std::string& wo) {
  if (muted) return;
  auto lu = [&](Report& r) { r.count++; if (label && label != r.label) { LabelBits b; b.may = gLabels[r.label].may | gLabels[label].may; r.label = internLabel(b); } };
  if (wo.empty() && curInst) { auto it = repCache.find({kind, curInst->I}); if (it != repCache.end()) { lu(reports[it->second]); return; } }
  std::string w = wo.empty() ? here() : wo; std::string key = std::string(kind) + "|" + w;
  auto it = repIdx.find(key); int i;
  if (it != repIdx.end()) { i = it->second; lu(reports[i]); }
  else { i = reports.size(); Report r; r.kind = kind; r.where = w; r.msg = msg; r.stack = stackStr(); r.label = label; r.deferred = deferred; reports.push_back(r); repIdx[key] = i; }
  if (wo.empty() && curInst) repCache[{kind, curInst->I}] = i; }
void Interp::event(State& s, const std::string& j) { if (muted && !disjunctive) return; Ev* e = new Ev; e->prev = s.ev; e->json = j; e->n = s.ev ? s.ev->n + 1 : 1; s.ev = Ref<Ev>(e); }
void Interp::checkUse(const V& v, const char* what) {
  if (!v.label) return;
  if (v.label >= labFlag.size()) labFlag.resize(gLabels.size() + 64, 0xFF);
  u8& fl = labFlag[v.label]; if (fl == 0xFF) { const LabelBits& b = gLabels[v.label]; fl = (b.may.test(A_UNINIT) || b.may.test(A_CONDUN) ? 1 : 0) | (b.may.test(A_MAYUN) ? 4 : 0) | ((b.may & ctMask).any() ? 2 : 0); }
  u8 f = fl; if (!f) return;
  if (f & 1) report("uninit", std::string("uninitialised data used as ") + what);
  if (f & 4) report("undecided-uninit", std::string("data initialised under a data-dependent trip count used as ") + what);
  if ((f & 2) && verdictLen && v.k == K_INT && (v.ext || v.obj)) { std::set<u32> got; for (int p = 1; p <= 2; p++) for (auto& x : gFactSets[factsPol(v, p)]) if (x.k == F_EQ) for (u32 q : {x.a, x.b}) if (q - verdictBase < verdictLen) got.insert(q); if (got.size() == verdictLen) f &= (u8)~2; }
  if (f & 2) { static std::map<const char*, std::string> kn; std::string& k = kn[what]; if (k.empty()) k = std::string("ct-") + what; report(k.c_str(), std::string("secret-dependent ") + what, v.label, true); } }

// ------------------------------------------------------------------------- joins
void Interp::clearDead(Cur& c, const std::vector<u64>& live) { for (size_t r = 0; r < c.regs.size(); r++) if (!((live[r >> 6] >> (r & 63)) & 1)) { V d; d.k = (Kind)DEADK; c.regs[r] = d; } }
static V bytesAsV(Interp& I, const Obj* o, u32 off, u32 n) {
  for (auto& c : o->cells) { if (c.first == off && c.second.pad == n) { V v = c.second; return v; } if (c.first < off + n && c.first + c.second.pad > off) return mkTop(std::min(64u, 8 * n), c.second.label); }
  u64 L = 0, H = 0; u32 lab = 0; bool cons = true; u32 id0 = 0; for (u32 b = 0; b < n; b++) { u8 x, y; u32 la, id; I.getByte(o, off + b, x, y, la, id); lab = b ? labComb(lab, la) : la; if (!b) id0 = id; else if (id != id0 + b) cons = false; if (b < 8) { L |= (u64)x << (8 * b); H |= (u64)y << (8 * b); } }
  V v = mkRange(L, H, lab); if (cons && id0) { v.id = id0; v.idw = n; } v.pad = n; return v; }
// Watched output: a byte that is a verbatim copy of a tracked byte on one of the joined paths keeps an atom saying of which.
u32 Interp::copyAtom(u32 lab, u32 id, u32 own) {
  std::string n = idName(id); if (n.empty()) return lab; size_t p = n.rfind('+'); u64 off = strtoull(n.c_str() + p + 1, nullptr, 10) & ~7ull; std::string src = n.substr(0, p), a;
  if (src[0] == 'P') { if (gLabels[own].must.test(atomIndex("PRG2"))) return lab; a = "CP:P"; }
  else if (src[0] == 'H') { u32 r = strtoul(src.c_str() + 1, nullptr, 10); bool leaf = false; if (r < hrecs.size()) for (auto& t : hrecs[r].alts) if (!t->segs.empty() && t->segs.back().k == 1 && t->segs.back().val == 0) leaf = true; a = "CP:" + (leaf ? std::string("LEAF") : src) + "+" + std::to_string(off); }
  else if (src[0] == 'I' || src[0] == 'R') a = "CP:" + src + "+" + std::to_string(off); else return lab;
  bool known = false; for (auto& x : gAtomNames) if (x == a) known = true; if (!known && gAtomNames.size() > 116) a = "CP:MANY";
  LabelBits b = gLabels[lab]; b.may.set(atomIndex(a)); return internLabel(b); }
bool Interp::joinObj(State& s, u32 id, const Obj* b, bool widen) {
  const Obj* a0 = s.objs.get(id); if (a0->version == b->version) return false; int elem = -1;
  Obj* a = s.objs.mut(id); bool ch = false;
  if (a->st != b->st) { if (a->st != S_MAYBE) { a->st = S_MAYBE; ch = true; } }
  if (b->touched && !a->touched) { a->touched = true; ch = true; }  if (b->weakw) a->weakw = true;
  { u32 l = labJoin(a->sumLabel, b->sumLabel); if (l != a->sumLabel) { a->sumLabel = l; ch = true; } }
  if (a->aux != b->aux) { u32 x = a->aux & b->aux; if (x != a->aux) { a->aux = x; ch = true; } }
  // structured cells first: collect the joined cells
  std::vector<std::pair<u32, V>> cells;
  if (!a->cells.empty() || !b->cells.empty()) {
    std::set<std::pair<u32, u32>> keys; for (auto& c : a->cells) keys.insert({c.first, c.second.pad}); for (auto& c : b->cells) keys.insert({c.first, c.second.pad});
    u64 last = 0; for (auto& k : keys) { if (k.first < last) continue; 
      V x = bytesAsV(*this, a, k.first, k.second), y = bytesAsV(*this, b, k.first, k.second);
      auto nul = [&](V& p, const V& q) { if ((q.k == K_PTR || q.k == K_TOPPTR || q.k == K_FN) && p.k == K_INT && p.lo == 0 && p.hi == 0) { u32 l = p.label; p = mkNull(); p.label = l; } }; nul(x, y); nul(y, x);
      x.pad = y.pad = 0; V j = joinV(x, y, widen); if (j.k == K_INT && k.second < 8) j.hi = std::min(j.hi, maskW(8 * k.second)); if (!sameV(j, x)) ch = true; j.pad = k.second; cells.push_back({k.first, j}); last = k.first + k.second; } }
  for (size_t p = 0; p < a->pages.size(); p++) {
    const Page* bp = b->pages[p].p; if (a->pages[p].p == bp) continue;
    Page* ap = page(a, (u64)p * PG); Page tmp; if (!bp) { memset(tmp.lo, b->dlo, PG); memset(tmp.hi, b->dhi, PG); for (int i = 0; i < PG; i++) { tmp.label[i] = b->dlabel; tmp.id[i] = b->dids ? b->dids + p * PG + i : 0; } bp = &tmp; }
    u32 la = ~0u, lb = ~0u, lr = 0;
    auto partial = [&] { u64 diff = 0; for (size_t q = 0; q < a->pages.size(); q++) { const Page *x = a->pages[q].p, *y = b->pages[q].p; if (x == y) continue; for (u64 i = 0; i < PG && q * PG + i < a->size; i++) diff += labUninit(x ? x->label[i] : a->dlabel) != labUninit(y ? y->label[i] : b->dlabel); } return diff < a->size; };
    for (int i = 0; i < PG; i++) { const u32 la0 = ap->label[i];
      if (bp->label[i] != ap->label[i]) { if (ap->label[i] != la || bp->label[i] != lb) { la = ap->label[i]; lb = bp->label[i]; if (gLoopJoin && !gLenient && labUninit(la) != labUninit(lb)) { if (elem < 0) { elem = partial(); if (elem && joinLocals) for (u32 l : *joinLocals) if (l == id) elem = 0; } lr = elem ? labJoinLenient(la, lb, a->weakw || b->weakw ? A_MAYUN : A_CONDUN) : labJoin(la, lb); } else lr = labJoin(la, lb); } if (lr != ap->label[i]) { ap->label[i] = lr; ch = true; } }
      if (bp->lo[i] < ap->lo[i]) { ap->lo[i] = widen ? 0 : bp->lo[i]; ch = true; }
      if (bp->hi[i] > ap->hi[i]) { ap->hi[i] = widen ? 255 : bp->hi[i]; ch = true; }
      if (ap->id[i] != bp->id[i]) { if (gObjInfo[id].watch && !muted) { u32 nl = ap->label[i]; if (ap->id[i]) nl = copyAtom(nl, ap->id[i], la0); if (bp->id[i]) nl = copyAtom(nl, bp->id[i], bp->label[i]); if (nl != ap->label[i]) { ap->label[i] = nl; ch = true; } } if (ap->id[i]) { ap->id[i] = 0; ch = true; } } } }
  a->cells.swap(cells); if (ch) a->version = ver++; else a->version = ver++;
  return ch; }
bool Interp::joinState(State& a, const State& b, bool widen) {
  joins++; bool ch = false;
  size_t nt = std::max(a.objs.top.size(), b.objs.top.size());
  for (size_t t = 0; t < nt; t++) { Node* x = t < a.objs.top.size() ? a.objs.top[t].p : nullptr; Node* y = t < b.objs.top.size() ? b.objs.top[t].p : nullptr; if (x == y) continue;
    for (int c = 0; c < 64; c++) { x = t < a.objs.top.size() ? a.objs.top[t].p : nullptr; Chunk* p = x ? x->c[c].p : nullptr; Chunk* q = y ? y->c[c].p : nullptr; if (p == q) continue;
      for (int i = 0; i < 64; i++) { u32 id = (u32)(t << 12 | c << 6 | i); Obj* o = a.objs.get(id); Obj* w = q ? q->o[i].p : nullptr; if (o == w) continue;
        if (!o) { if (gObjInfo[id].kind == O_HEAP || gObjInfo[id].kind == O_CIPHER) { a.objs.slot(id) = Ref<Obj>(w); if (w->st == S_ALIVE) a.objs.mut(id)->st = S_MAYBE; ch = true; } }
        else if (!w) { if (gObjInfo[id].kind == O_HEAP || gObjInfo[id].kind == O_CIPHER) { if (o->st == S_ALIVE) { a.objs.mut(id)->st = S_MAYBE; ch = true; } } else { a.objs.clear(id); ch = true; } }
        else if (joinObj(a, id, w, widen)) ch = true; } } }
  // hash contexts
  bool symDiff = a.symR != b.symR;
  { size_t w = 0; for (size_t i = 0; i < a.hctx.size(); i++) { auto& h = a.hctx[i]; const Ref<HCtx>* o = nullptr; for (auto& g : b.hctx) if (g.first == h.first) o = &g.second;
      if (!o) { ch = true; continue; }
      if (o->p != h.second.p) { HCtx* m = h.second.mut(); const HCtx* q = o->p; if (m->rate != q->rate || m->suffix != q->suffix || m->phase != q->phase || m->squeezed != q->squeezed || m->rec != q->rec) { if (!m->unbounded) ch = true; m->unbounded = true; }
        u32 l = labJoin(m->label, q->label); if (l != m->label) { m->label = l; ch = true; }
        if (q->unbounded && !m->unbounded) { m->unbounded = true; ch = true; }
        if (!m->unbounded) { auto tag = [&](Ref<Transcript> r, const State& s) { if (symDiff && r->symc.empty()) { r.mut()->symc = s.symR; } return r; };
          std::vector<Ref<Transcript>> alts; auto add = [&](Ref<Transcript> r) { for (auto& x : alts) if (x.p == r.p || (x->segs == r->segs && x->symc == r->symc)) return; alts.push_back(r); };
          // transcripts common to both sides stay untagged
          for (auto& r : m->alts) { bool both = false; for (auto& x : q->alts) if (x.p == r.p || (x->segs == r->segs && x->symc == r->symc)) both = true; add(both ? r : tag(r, a)); }
          size_t before = alts.size(); for (auto& r : q->alts) { bool both = false; for (auto& x : m->alts) if (x.p == r.p || (x->segs == r->segs && x->symc == r->symc)) both = true; if (!both) add(tag(r, b)); }
          if (alts.size() != before) ch = true; m->alts.swap(alts); if (m->alts.size() > 12) { m->unbounded = true; ch = true; } } }
      if (w != i) a.hctx[w] = h; w++; } a.hctx.resize(w); }
  if (symDiff) for (size_t i = 0; i < a.symR.size(); i++) { if (b.symR[i].first < a.symR[i].first) { a.symR[i].first = b.symR[i].first; ch = true; } if (b.symR[i].second > a.symR[i].second) { a.symR[i].second = b.symR[i].second; ch = true; } }
  { u32 f = factsInter(a.facts, b.facts); if (f != a.facts) { a.facts = f; ch = true; } }
  if (a.ev.p != b.ev.p) { if (b.ev && (!a.ev || b.ev->n > a.ev->n)) a.ev = b.ev; }
  return ch; }
static V clampW(V v, const Ty& t) { if (v.k == K_INT && t.k == T_INT && v.hi > maskW(t.w)) v.hi = maskW(t.w); return v; }
bool Interp::joinCur(Cur& a, const Cur& b, Fn* f, const std::vector<u64>* live, bool widen) {
  bool ch = false;
  for (size_t r = 0; r < a.regs.size(); r++) { if (live && !(((*live)[r >> 6] >> (r & 63)) & 1)) continue; V& x = a.regs[r]; const V& y = b.regs[r]; if (dead(x)) continue; if (dead(y)) { x = y; ch = true; continue; } if (sameV(x, y)) continue; V j = clampW(joinV(x, y, widen), f->regTy[r]); if (!sameV(j, x)) { x = j; ch = true; } }
  for (u32 o : b.allocas) if (std::find(a.allocas.begin(), a.allocas.end(), o) == a.allocas.end()) a.allocas.push_back(o);
  if (joinState(a.st, b.st, widen)) ch = true;
  return ch; }
// Paths whose pointer shapes or heap ownership differ are worth keeping apart.
bool Interp::joinable(const Cur& a, const Cur& b, const std::vector<u64>* live) {
  for (size_t r = 0; r < a.regs.size() && r < b.regs.size(); r++) { if (live && !(((*live)[r >> 6] >> (r & 63)) & 1)) continue; const V &x = a.regs[r], &y = b.regs[r]; if (dead(x) || dead(y)) continue; if (x.k == K_PTR && y.k == K_PTR && x.obj != y.obj) return false; if ((x.k == K_PTR || x.k == K_FN) != (y.k == K_PTR || y.k == K_FN) && !(x.k == K_TOPPTR || y.k == K_TOPPTR)) return false; }
  size_t nt = std::max(a.st.objs.top.size(), b.st.objs.top.size());
  for (size_t t = 0; t < nt; t++) { Node* x = t < a.st.objs.top.size() ? a.st.objs.top[t].p : nullptr; Node* y = t < b.st.objs.top.size() ? b.st.objs.top[t].p : nullptr; if (x == y) continue;
    for (int c = 0; c < 64; c++) { Chunk* p = x ? x->c[c].p : nullptr; Chunk* q = y ? y->c[c].p : nullptr; if (p == q) continue;
      for (int i = 0; i < 64; i++) { Obj* o = p ? p->o[i].p : nullptr; Obj* w = q ? q->o[i].p : nullptr; if (o == w) continue; u32 id = (u32)(t << 12 | c << 6 | i); bool heap = gObjInfo[id].kind == O_HEAP || gObjInfo[id].kind == O_CIPHER; 
        if (heap) { bool ao = o && o->st == S_ALIVE, aw = w && w->st == S_ALIVE; if (ao != aw) return false; } 
        if (o && w) for (auto& c1 : o->cells) if (c1.second.k == K_PTR) for (auto& c2 : w->cells) if (c1.first == c2.first && c2.second.k == K_PTR && c1.second.obj != c2.second.obj) return false; } } }
  return true; }
std::vector<PathOut> Interp::groupJoin(Frame& F, std::vector<PathOut>& v, const std::vector<u64>* live, size_t cap) {
  std::vector<PathOut> g;
  for (auto& p : v) { bool done = false; 
    for (auto& q : g) if (joinable(q.c, p.c, live)) { joinCur(q.c, p.c, F.f, live, false); done = true; break; }
    if (!done) { if (g.size() >= cap) joinCur(g.back().c, p.c, F.f, live, false); else g.push_back(std::move(p)); } }
  v.clear(); return g; }

// -------------------------------------------------------------------- refinement
bool Interp::addFacts(Cur& c, u32 facts) { c.st.facts = factsUnion(c.st.facts, facts); return true; }
bool Interp::refineRange(Frame& F, Cur& c, int op, u64 lo, u64 hi, unsigned w, int depth) {
  if (op < 0 || depth > 8) { if (op < 0) { V v = P.consts[~op]; if (v.k == K_INT && (v.hi < lo || v.lo > hi)) return false; } return true; }
  V& v = c.regs[op]; if (dead(v) || v.k != K_INT) return true;
  V old = v; if (old.ext) norm(c.st, old, w);
  u64 nl = std::max(old.lo, lo), nh = std::min(old.hi, hi);
  if (old.cm > 1 && nl <= nh) { u64 d = (old.cr + old.cm - nl % old.cm) % old.cm; if (nl + d < nl || nl + d > nh) return false; nl += d; u64 e = (nh % old.cm + old.cm - old.cr) % old.cm; nh -= e; }
  if (nl > nh) return false;
  if (old.ext && gExts[old.ext].sym) { const Ext e = gExts[old.ext]; auto& r = c.st.symR[e.sym]; __int128 a = nl, b = nh, k = e.symk, d = e.symc; // a <= k*s+d <= b
    __int128 x, y; auto fl = [](__int128 p, __int128 q) { __int128 t = p / q; if ((p % q) && ((p < 0) != (q < 0))) t--; return t; }; auto ce = [&](__int128 p, __int128 q) { return -fl(-p, q); };
    if (k > 0) { x = ce(a - d, k); y = fl(b - d, k); } else if (k < 0) { x = ce(b - d, k); y = fl(a - d, k); } else { x = r.first; y = r.second; }
    if (x < 0) x = 0; if (x > (__int128)r.first) r.first = (u64)x; if (y < (__int128)r.second) { if (y < 0) return false; r.second = (u64)y; } if (r.first > r.second) return false; }
  bool chg = nl != v.lo || nh != v.hi; V before = v; v.lo = nl; v.hi = nh; if (lo != 0) v.wide &= ~W_LO; if (hi < maskW(w)) v.wide &= ~W_HI;
  int di = F.f->defs[op]; if (di < 0) return true; const Inst& x = F.f->code[di];
  switch (x.op) {
  case I_ZEXT: if (x.argTy[0].k == T_INT) { if (lo > maskW(x.argTy[0].w)) return false; return refineRange(F, c, x.a, lo, std::min(hi, maskW(x.argTy[0].w)), x.argTy[0].w, depth + 1); } break;
  case I_FREEZE: return refineRange(F, c, x.a, lo, hi, w, depth + 1);
  case I_TRUNC: if (x.argTy[0].k == T_INT) { V s = x.a >= 0 ? c.regs[x.a] : P.consts[~x.a]; if (!dead(s) && s.k == K_INT && s.hi <= maskW(w)) return refineRange(F, c, x.a, lo, hi, x.argTy[0].w, depth + 1); } break;
  case I_BIN: if (x.sub == Instruction::Add || x.sub == Instruction::Sub) { V a = x.a >= 0 ? c.regs[x.a] : P.consts[~x.a], b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b]; if (dead(a) || dead(b) || a.k != K_INT || b.k != K_INT) break; u64 M = maskW(x.w);
      if (b.lo == b.hi) { u64 k = x.sub == Instruction::Add ? b.lo : (0 - b.lo) & M; // v = a + k (mod)
        u64 l2 = (nl - k) & M, h2 = (nh - k) & M; if (l2 <= h2) return refineRange(F, c, x.a, l2, h2, x.w, depth + 1); } } 
    else if (x.sub == Instruction::And) { V b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b]; if (!dead(b) && b.isC() && lo == 0 && hi == 0) { u64 m = b.lo; if (m && !(m & (m + 1)) && m < (1u << 30)) return refineCong(F, c, x.a, (u32)m + 1, 0); } if (!dead(b) && b.isC() && b.lo == maskW(x.w)) return refineRange(F, c, x.a, lo, hi, w, depth + 1); }
    else if (x.sub == Instruction::URem) { V b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b]; if (!dead(b) && b.isC() && nl == nh && b.lo > 1 && b.lo < (1u << 30)) return refineCong(F, c, x.a, (u32)b.lo, (u32)nl); }
    else if (x.sub == Instruction::Or && hi == 0) { return refineRange(F, c, x.a, 0, 0, w, depth + 1) && refineRange(F, c, x.b, 0, 0, w, depth + 1); }
    break;
  case I_LOAD: if (chg) { V p = x.a >= 0 ? c.regs[x.a] : P.consts[~x.a]; if (dead(p) || p.k != K_PTR || p.lo != p.hi || !p.obj) break; Obj* o = c.st.objs.get(p.obj); if (!o || gObjInfo[p.obj].symbolic || (i64)p.lo < 0 || p.lo + x.ty.bytes > o->size || x.ty.k != T_INT) break;
      if (x.ty.bytes == 1 && before.id) { u8 a, b; u32 la, id; bool cell = false; for (auto& q : o->cells) if (q.first <= p.lo && q.first + q.second.pad > p.lo) cell = true; if (cell) break; getByte(o, p.lo, a, b, la, id); if (id == before.id) { o = mutObj(c.st, p.obj); putByte(o, p.lo, (u8)nl, (u8)nh, la, id); } }
      else { for (auto& q : o->cells) if (q.first == p.lo && q.second.pad == x.ty.bytes) { V t = q.second; t.pad = 0; if (t.k == K_INT && t.ext == before.ext && t.lo <= before.lo && t.hi >= before.hi && t.lo == before.lo && t.hi == before.hi) { o = mutObj(c.st, p.obj); for (auto& z : o->cells) if (z.first == p.lo) { z.second.lo = nl; z.second.hi = nh; } } break; } } }
    break;
  }
  return true; }
bool Interp::refineCong(Frame& F, Cur& c, int op, u32 m, u32 r) { if (op < 0 || m < 2) return true; V& v = c.regs[op]; if (dead(v) || v.k != K_INT) return true; if (v.lo == v.hi) return v.lo % m == r; if (v.cm > 1 && v.cm % m == 0) return v.cr % m == r; if (v.cm > 1 && m % v.cm != 0) return true; if (v.cm > 1 && r % v.cm != v.cr) return false; v.cm = m; v.cr = r % m; u64 d = (r + m - v.lo % m) % m; v.lo += d; u64 e = (v.hi % m + m - r) % m; if (v.hi < e) return false; v.hi -= e; return v.lo <= v.hi; }
bool Interp::refineCond(Frame& F, Cur& c, int reg, bool truth, int depth) {
  if (depth > 8) return true;
  if (reg < 0) { V v = P.consts[~reg]; return !v.isC() || (v.lo != 0) == truth; }
  V& v = c.regs[reg]; if (dead(v)) return true;
  if (v.k == K_INT) { if (v.isC() && (v.lo != 0) != truth) return false; if (v.ext) { u32 f = factsPol(v, truth ? 2 : 1); if (f) addFacts(c, f); } 
    if (v.lo != v.hi && !truth) v.lo = v.hi = 0; else if (v.lo == 0 && v.hi == 1 && truth) v.lo = 1; }
  int di = F.f->defs[reg]; if (di < 0) return true; const Inst& x = F.f->code[di];
  switch (x.op) {
  case I_ICMP: { Ty t = x.argTy[0]; V a = x.a >= 0 ? c.regs[x.a] : P.consts[~x.a], b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b]; if (dead(a) || dead(b)) return true;
      unsigned pr = x.sub; if (!truth) pr = CmpInst::getInversePredicate((CmpInst::Predicate)pr);
      if (t.k == T_PTR) { auto nul = [](const V& q) { return q.k == K_PTR && q.obj == 0 && q.lo == 0 && q.hi == 0; }; if (pr == CmpInst::ICMP_EQ) { if (nul(b) && x.a >= 0 && a.k == K_TOPPTR) c.regs[x.a] = mkNull(); if (nul(a) && x.b >= 0 && b.k == K_TOPPTR) c.regs[x.b] = mkNull();
          auto mz = [&](const V& q, int r) { if (q.k != K_PTR || !q.obj || !gObjInfo[q.obj].maybeNull || q.lo || q.hi) return true; const Ext& z = gExts[gObjInfo[q.obj].sizeExt]; if (!z.sym) return true; auto& sr = c.st.symR[z.sym]; if (sr.first) return false; sr.second = 0; if (r >= 0) c.regs[r] = mkNull(); return true; }; // a buffer of length zero may be a null pointer
          if (nul(b) && !mz(a, x.a)) return false; if (nul(a) && !mz(b, x.b)) return false; } return true; }
      if (t.k != T_INT || a.k != K_INT || b.k != K_INT) return true;
      if (a.ext) norm(c.st, a, t.w); if (b.ext) norm(c.st, b, t.w);
      u64 M = maskW(t.w), H = M >> 1; 
      if (pr >= CmpInst::ICMP_SGT && pr <= CmpInst::ICMP_SLE) { 
        if (a.hi <= H && b.hi <= H) pr = pr == CmpInst::ICMP_SGT ? CmpInst::ICMP_UGT : pr == CmpInst::ICMP_SGE ? CmpInst::ICMP_UGE : pr == CmpInst::ICMP_SLT ? CmpInst::ICMP_ULT : CmpInst::ICMP_ULE;
        else if (b.isC() && b.lo == 0 && pr == CmpInst::ICMP_SLT) return refineRange(F, c, x.a, H + 1, M, t.w, depth + 1);
        else if (b.isC() && b.lo == 0 && pr == CmpInst::ICMP_SGE) return refineRange(F, c, x.a, 0, H, t.w, depth + 1);
        else if (b.isC() && b.lo == M && pr == CmpInst::ICMP_SGT) return refineRange(F, c, x.a, 0, H, t.w, depth + 1);
        else if (b.isC() && b.lo == M && pr == CmpInst::ICMP_SLE) return refineRange(F, c, x.a, H + 1, M, t.w, depth + 1);
        else if (b.isC() && b.lo <= H && pr == CmpInst::ICMP_SGT) return refineRange(F, c, x.a, b.lo + 1, H, t.w, depth + 1);
        else if (b.isC() && b.lo <= H && pr == CmpInst::ICMP_SGE) return refineRange(F, c, x.a, b.lo, H, t.w, depth + 1);
        else return true; }
      switch (pr) {
      case CmpInst::ICMP_EQ: return refineRange(F, c, x.a, b.lo, b.hi, t.w, depth + 1) && refineRange(F, c, x.b, a.lo, a.hi, t.w, depth + 1);
      case CmpInst::ICMP_NE: if (b.isC()) { if (a.lo == b.lo) { if (a.lo == a.hi) return false; return refineRange(F, c, x.a, a.lo + 1, a.hi, t.w, depth + 1); } if (a.hi == b.lo) return refineRange(F, c, x.a, a.lo, a.hi - 1, t.w, depth + 1); }
        if (a.isC()) { if (b.lo == a.lo) { if (b.lo == b.hi) return false; return refineRange(F, c, x.b, b.lo + 1, b.hi, t.w, depth + 1); } if (b.hi == a.lo) return refineRange(F, c, x.b, b.lo, b.hi - 1, t.w, depth + 1); } return true;
      case CmpInst::ICMP_ULT: if (b.hi == 0 || a.lo == M) return false; return refineRange(F, c, x.a, 0, b.hi - 1, t.w, depth + 1) && refineRange(F, c, x.b, a.lo + 1, M, t.w, depth + 1);
      case CmpInst::ICMP_ULE: return refineRange(F, c, x.a, 0, b.hi, t.w, depth + 1) && refineRange(F, c, x.b, a.lo, M, t.w, depth + 1);
      case CmpInst::ICMP_UGT: if (a.hi == 0 || b.lo == M) return false; return refineRange(F, c, x.b, 0, a.hi - 1, t.w, depth + 1) && refineRange(F, c, x.a, b.lo + 1, M, t.w, depth + 1);
      case CmpInst::ICMP_UGE: return refineRange(F, c, x.b, 0, a.hi, t.w, depth + 1) && refineRange(F, c, x.a, b.lo, M, t.w, depth + 1); }
      return true; }
  case I_BIN: if (x.ty.w == 1) { if (x.sub == Instruction::Xor) { V b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b]; if (!dead(b) && b.isC()) return refineCond(F, c, x.a, b.lo ? !truth : truth, depth + 1); }
      if (x.sub == Instruction::And && truth) return refineCond(F, c, x.a, true, depth + 1) && refineCond(F, c, x.b, true, depth + 1);
      if (x.sub == Instruction::Or && !truth) return refineCond(F, c, x.a, false, depth + 1) && refineCond(F, c, x.b, false, depth + 1); } return true;
  case I_TRUNC: { V s = x.a >= 0 ? c.regs[x.a] : P.consts[~x.a]; if (!dead(s) && s.k == K_INT && s.hi <= 1) return refineRange(F, c, x.a, truth, truth, x.argTy[0].w, depth + 1); if (!dead(s) && s.k == K_INT && s.ext) { const Ext e = gExts[s.ext]; if (e.pol == 2 && truth) addFacts(c, e.facts); } return true; }
  case I_FREEZE: return refineCond(F, c, x.a, truth, depth + 1);
  case I_SELECT: if (x.ty.w == 1) { V b = x.b >= 0 ? c.regs[x.b] : P.consts[~x.b], d = x.c >= 0 ? c.regs[x.c] : P.consts[~x.c]; if (dead(b) || dead(d)) return true; if (truth && d.isC() && d.lo == 0) return refineCond(F, c, x.a, true, depth + 1) && refineCond(F, c, x.b, true, depth + 1); if (!truth && b.isC() && b.lo == 1) return refineCond(F, c, x.a, false, depth + 1) && refineCond(F, c, x.c, false, depth + 1); } return true;
  case I_LOAD: return refineRange(F, c, reg, truth ? 1 : 0, truth ? 1 : 0, 8, depth + 1);
  }
  return true; }
bool Interp::takeArm(Frame& F, Cur& c, const Inst& br, int arm) {
  if (br.op == I_CONDBR) return refineCond(F, c, br.a, arm == 0, 0);
  if (br.op == I_SWITCH) { if (arm == 0) { V v = br.a >= 0 ? c.regs[br.a] : P.consts[~br.a]; if (v.k != K_INT) return true; u64 lo = v.lo, hi = v.hi; bool again = true; while (again && lo <= hi) { again = false; for (auto& k : br.idx) { if ((u64)k.second == lo) { if (lo == hi) return false; lo++; again = true; } else if ((u64)k.second == hi) { if (lo == hi) return false; hi--; again = true; } } } return refineRange(F, c, br.a, lo, hi, br.w, 0); }
    return refineRange(F, c, br.a, (u64)br.idx[arm - 1].second, (u64)br.idx[arm - 1].second, br.w, 0); }
  return true; }

// ------------------------------------------------------------------------ control
void Interp::phi(Cur& c, const std::vector<PhiMove>& m) {
  if (m.size() == 1) { c.regs[m[0].dst] = m[0].src >= 0 ? c.regs[m[0].src] : P.consts[~m[0].src]; return; }
  V tmp[16]; if (m.size() <= 16) { for (size_t i = 0; i < m.size(); i++) tmp[i] = m[i].src >= 0 ? c.regs[m[i].src] : P.consts[~m[i].src]; for (size_t i = 0; i < m.size(); i++) c.regs[m[i].dst] = tmp[i]; return; }
  std::vector<V> t(m.size()); for (size_t i = 0; i < m.size(); i++) t[i] = m[i].src >= 0 ? c.regs[m[i].src] : P.consts[~m[i].src]; for (size_t i = 0; i < m.size(); i++) c.regs[m[i].dst] = t[i]; }
static int succOf(const Inst& br, int arm) { if (br.op == I_CONDBR) return arm == 0 ? br.s0 : br.s1; return arm == 0 ? br.s0 : br.idx[arm - 1].first; }
void Interp::enter(Frame& F, Cur& c, const Inst& br, int arm, const std::vector<Stop>& stops, std::vector<PathOut>& outs) {
  if (!takeArm(F, c, br, arm)) return;
  int to = succOf(br, arm); auto it = F.f->bbs[to].phiIn.find(br.bb); if (it != F.f->bbs[to].phiIn.end()) phi(c, it->second);
  for (auto& s : stops) if (s.kind == 0 && s.block == to) { outs.push_back({to, std::move(c), V()}); return; }
  run(F, std::move(c), to, F.f->bbs[to].start, stops, outs); }
void Interp::fixpoint(Frame& F, Cur& c, const Inst& br, const std::vector<Stop>& inner0, std::vector<PathOut>& o) {
  fixpoints++; struct Len { bool s = gLenient; Len() { gLenient = false; } ~Len() { gLenient = s; } } lenGuard; std::vector<Stop> inner = inner0; inner.push_back({1, br.bb}); int narms = br.op == I_CONDBR ? 2 : 1 + (int)br.idx.size();
  std::vector<u64> live(F.f->bbs[0].liveIn.size()); for (int a = 0; a < narms; a++) { int t = succOf(br, a); for (size_t w = 0; w < live.size(); w++) live[w] |= F.f->bbs[t].liveIn[w]; auto it = F.f->bbs[t].phiIn.find(br.bb); if (it != F.f->bbs[t].phiIn.end()) for (auto& m : it->second) if (m.src >= 0) live[m.src >> 6] |= 1ull << (m.src & 63); }
  // keep the condition chain for refinement
  std::function<void(int, int)> keep = [&](int r, int d) { if (r < 0 || d > 5) return; live[r >> 6] |= 1ull << (r & 63); int di = F.f->defs[r]; if (di < 0) return; const Inst& x = F.f->code[di]; if (x.bb != br.bb) return; switch (x.op) { case I_ICMP: case I_BIN: keep(x.a, d + 1); keep(x.b, d + 1); break; case I_ZEXT: case I_TRUNC: case I_LOAD: case I_FREEZE: keep(x.a, d + 1); break; } };
  keep(br.a, 0);
  clearDead(c, live); Cur init = c, inv = c; const int term = -2 - br.bb;
  auto arms = [&](const Cur& s, std::vector<PathOut>& all, std::unique_ptr<Cur>& back) { std::vector<PathOut> r; for (int a = 0; a < narms && !aborted; a++) { Cur k = s; enter(F, k, br, a, inner, r); } for (auto& p : r) { if (p.stop == term) { clearDead(p.c, live); if (!back) back.reset(new Cur(std::move(p.c))); else joinCur(*back, p.c, F.f, &live, false); } else all.push_back(std::move(p)); } };
  bool stable = false; muted++;
  for (int it = 0; it < 40 && !aborted; it++) { std::vector<PathOut> all; std::unique_ptr<Cur> back; arms(inv, all, back); if (!back) { stable = true; break; } gLenient = true; bool chg = joinCur(inv, *back, F.f, &live, it >= 1); gLenient = false; if (!chg) { stable = true; break; } }
  Cur post = inv;
  if (stable) for (int n = 0; n < 2 && !aborted; n++) { std::vector<PathOut> all; std::unique_ptr<Cur> back; arms(inv, all, back); Cur nx = init; gLenient = true; if (back) joinCur(nx, *back, F.f, &live, false); gLenient = false; 
      // accept only if it is still a post-fixpoint
      std::vector<PathOut> a2; std::unique_ptr<Cur> b2; arms(nx, a2, b2); Cur chk = nx; gLenient = true; bool worse = b2 && joinCur(chk, *b2, F.f, &live, false); gLenient = false; if (worse) break; inv = std::move(nx); }
  muted--;
  if (!stable) report("undecided-fixpoint", "loop analysis did not stabilise");
  std::unique_ptr<Cur> back; arms(inv, o, back); }
// Handles an undecided terminator. Returns the number of continuing groups placed in outs' tail... (see run)
int Interp::fork(Frame& F, Cur& c, const Inst& br, const std::vector<Stop>& stops, std::vector<PathOut>& outs) {
  forks++; Fn* f = F.f; int P = f->bbs[br.bb].ipdom; 
  while (P >= 0 && f->bbs[P].trivial) P = f->bbs[P].ipdom;
  if (P >= 0 && f->bbs[P].tail) P = -1;
  if (P < 0) { P = f->bbs[br.bb].ipdom2; while (P >= 0 && f->bbs[P].trivial) P = f->bbs[P].ipdom2; if (P >= 0 && f->bbs[P].tail) P = -1; } // the arms meet again except where one of them returns
  if (disjunctive && (P < 0 || F.nest[br.bb] < 7)) P = -1;
  int& n = F.nest[br.bb]; n++; bool callFree = f->pure == 1 || f->model == -2;
  int limit = callFree || f->bbs[br.bb].scan ? unrollLeaf : unrollCalls;
  bool pInStops = false; if (P >= 0) for (auto& s : stops) if (s.kind == 0 && s.block == P) pInStops = true;
  std::vector<Stop> inner = stops; if (P >= 0 && !pInStops) inner.push_back({0, P});
  std::vector<PathOut> o; int narms = br.op == I_CONDBR ? 2 : 1 + (int)br.idx.size();
  bool sc = gCondRead; if (P >= 0 && !gCondRead) gCondRead = loopActive(F, br.bb);
  if (n > limit) { int save = n; fixpoint(F, c, br, inner, o); F.nest[br.bb] = save; }
  else for (int a = 0; a < narms && !aborted; a++) { if (a + 1 == narms) { enter(F, c, br, a, inner, o); } else { Cur k = c; enter(F, k, br, a, inner, o); } }
  gCondRead = sc;
  F.nest[br.bb]--;
  if (P < 0) { for (auto& p : o) outs.push_back(std::move(p)); return -1; }
  std::vector<PathOut> atP; for (auto& p : o) if (p.stop == P) atP.push_back(std::move(p)); else outs.push_back(std::move(p));
  if (atP.empty()) return -1;
  size_t cap = F.groups > 200 ? 1 : 6; bool sl = gLenient; gLenient = f->bbs[br.bb].loopExit; bool sj = gLoopJoin; gLoopJoin = loopActive(F, br.bb); std::vector<u32> loc; joinLocals = nullptr; if (gLoopJoin && !f->bbs[br.bb].inLoop) { loc = atP[0].c.allocas; joinLocals = &loc; } std::vector<PathOut> g = groupJoin(F, atP, &f->bbs[P].liveIn, cap); gLenient = sl; gLoopJoin = sj; joinLocals = nullptr; if (g.size() > 1) F.groups += (int)g.size();
  if (pInStops) { for (auto& p : g) outs.push_back(std::move(p)); return -1; }
  for (size_t i = 0; i + 1 < g.size(); i++) run(F, std::move(g[i].c), P, f->bbs[P].start, stops, outs);
  c = std::move(g.back().c); return P; }

void Interp::leave(Cur& c) { for (u32 o : c.allocas) { c.st.objs.clear(o); if (!c.st.hctx.empty()) killHctx(c.st, o); } c.allocas.clear(); }
bool Interp::isPure(Fn* f) {
  if (f->pure != 2) return f->pure == 1; f->pure = 0; if (!f->hasBody) return false; P.compile(f);
  // locals must not escape; reads of constant globals allowed
  std::set<int> local; bool ok = true; bool callFree = true;
  for (auto& x : f->code) { switch (x.op) {
    case I_ALLOCA: local.insert(x.dst); break;
    case I_GEP: if (x.a >= 0 ? local.count(x.a) : (P.consts[~x.a].k == K_PTR && P.consts[~x.a].obj && gObjInfo[P.consts[~x.a].obj].constant)) local.insert(x.dst); break;
    case I_LOAD: if (x.a >= 0 ? !local.count(x.a) : !(P.consts[~x.a].k == K_PTR && gObjInfo[P.consts[~x.a].obj].constant)) ok = false; break;
    case I_STORE: if (x.a < 0 || !local.count(x.a) || (x.b >= 0 && local.count(x.b))) ok = false; break;
    case I_CALL: if (!x.callee) { ok = false; callFree = false; break; } { const std::string& n = x.callee->name; if (n.compare(0, 5, "llvm.") == 0) { break; } if (n == "__assert_fail") break; callFree = false; if (!isPure(x.callee)) ok = false; for (int a : x.args) if (a >= 0 && local.count(a)) ok = false; } break;
    case I_P2I: case I_I2P: ok = false; break; } }
  for (auto& t : f->regTy) if (t.k == T_AGG) { }
  for (int i = 0; i < f->nargs; i++) if (f->regTy[i].k == T_PTR) ok = false;
  if (f->retTy.k == T_VOID || f->retTy.k == T_PTR) ok = false;
  if (callFree && f->model < 0) f->model = -2; // marker: call free
  f->pure = ok ? 1 : 0; return ok; }

std::vector<Out> Interp::call(Fn* f, Cur c, std::vector<V> args, const Inst* site) {
  callsN++; std::vector<Out> res; isPure(f); P.compile(f); if (!muted) fnsSeen.insert(f->name); f->calls++;
  int depth = 0; for (Frame* q = curFrame; q; q = q->up) if (q->f == f) depth++; if (depth > 6) { report("undecided-recursion", "recursion of " + f->name); aborted = true; abortMsg = "recursion of " + f->name; return res; }
  Frame F; F.f = f; F.up = curFrame; F.site = site; const Inst* si = curInst; curFrame = &F;
  c.regs.assign(f->nregs, V()); c.allocas.clear(); for (size_t i = 0; i < args.size() && (int)i < f->nargs; i++) { c.regs[i] = args[i];
    if (site && i < site->argTy.size() && (site->argTy[i].n & 0x80000000u)) { u32 sz = site->argTy[i].n & 0x7fffffff; ObjInfo inf; inf.kind = O_STACK; inf.size = sz; inf.name = "by-value argument of " + f->name; u32 id = newObj(c.st, inf); c.allocas.push_back(id); copyMem(c.st, mkPtr(id, 0), args[i], mkC(sz), false); c.regs[i] = mkPtr(id, 0); } }
  std::vector<PathOut> outs; run(F, std::move(c), 0, 0, {}, outs);
  curFrame = F.up; curInst = si;
  // group outcomes by returned constant and shape
  size_t cap = disjunctive ? 4000 : 16;
  for (auto& p : outs) { if (p.stop != -1) continue; bool done = false;
    if (!disjunctive || res.size() >= cap) for (auto& q : res) { bool same = sameV(q.ret, p.ret) || (q.ret.k == K_INT && p.ret.k == K_INT && !(q.ret.isC() && p.ret.isC() && q.ret.lo != p.ret.lo)); if (!same && res.size() < cap) continue; std::vector<V> ra; q.c.regs.clear(); p.c.regs.clear(); if (res.size() < cap && !joinable(q.c, p.c, nullptr)) continue; { bool sj = gLoopJoin; gLoopJoin = loopActive(F, -1); joinState(q.c.st, p.c.st, false); gLoopJoin = sj; } q.ret = joinV(q.ret, p.ret, false); done = true; break; }
    if (!done) { p.c.regs.clear(); res.push_back({std::move(p.c), p.ret}); } }
  if (auto* dc = cfg.getArray("declassRet")) for (auto& pv : *dc) { std::string pat = pv.getAsString()->str(); bool hit = pat == f->name || (pat.back() == '*' && f->name.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0); if (hit) for (auto& r : res) if (r.ret.k == K_INT) r.ret.label = gLabels[r.ret.label].may.test(A_UNINIT) ? labelAtom(A_UNINIT) : 0; }
  return res; }

static inline bool plainInt(const V& v) { return v.k == K_INT; }

void Interp::run(Frame& F, Cur c, int bb, int ip, const std::vector<Stop>& stops, std::vector<PathOut>& outs) {
  Fn* f = F.f; bool termStops = false; for (auto& s : stops) if (s.kind == 1) termStops = true;
  u32 undefL = labelAtom(A_UNINIT); (void)undefL;
  curFrame = &F;
  const Inst* code = f->code.data();
#define OPD(o) ((o) >= 0 ? R[o] : P.consts[~(o)])
  V* R = c.regs.data();
  for (;;) {
    if (aborted) return;
    const Inst& x = code[ip]; curInst = &x; if (++steps > stepLimit) { aborted = true; abortMsg = "step limit"; return; }
    switch (x.op) {
    case I_BIN: {
      const V &a = OPD(x.a), &b = OPD(x.b);
      if (x.ty.k == T_VEC) { V r; r.k = K_VEC; 
        if (a.k == K_VEC && b.k == K_VEC) { if (a.obj == b.obj) r.obj = a.obj; else { struct E { u32 a = ~0u, b = ~0u, r; }; static E cache[4096]; E& e = cache[(a.obj * 2654435761u ^ b.obj * 40503u) & 4095]; if (e.a == a.obj && e.b == b.obj) r.obj = e.r; else { auto &p = gLanes[a.obj], &q = gLanes[b.obj]; std::vector<u32> z(p.size()); for (size_t i = 0; i < p.size(); i++) z[i] = labComb(p[i], i < q.size() ? q[i] : 0); r.obj = internLanes(z); e.a = a.obj; e.b = b.obj; e.r = r.obj; } } }
        else { std::vector<u32> z(x.ty.n, labComb(a.label, b.label)); r.obj = internLanes(z); }
        r.label = labComb(a.label, b.label); if (!x.args.empty()) { auto z = gLanes[r.obj]; for (int q : x.args) z[q] = 0; r.obj = internLanes(z); r.label = z[0]; for (auto q : z) r.label = labComb(r.label, q); } R[x.dst] = r; break; }
      if (ub && x.al) overflowUse(c, x, a, b);
      if (x.sub >= Instruction::UDiv && x.sub <= Instruction::FRem) { divs++; bool p2 = b.isC() && b.lo && !(b.lo & (b.lo - 1)); if (!(b.isC() && b.lo)) { V bb2 = b; if (bb2.ext) norm(c.st, bb2, x.w); if (bb2.k == K_INT && bb2.lo == 0) report(bb2.hi == 0 || !(bb2.wide & W_LO) ? "div-zero" : "undecided-div", "divisor may be zero"); } if (!p2) { checkUse(a, "division"); checkUse(b, "division"); } }
      if (x.ty.k == T_WIDE || a.k != K_INT || b.k != K_INT) { R[x.dst] = bin(c.st, x.sub, x.w > 64 ? 128 : x.w, a, b); break; }
      if (a.lo == a.hi && b.lo == b.hi && !a.ext && !b.ext) { u64 M = maskW(x.w), r; bool ok = true; switch (x.sub) { case Instruction::Add: r = a.lo + b.lo; break; case Instruction::Sub: r = a.lo - b.lo; break; case Instruction::Mul: r = a.lo * b.lo; break; case Instruction::And: r = a.lo & b.lo; break; case Instruction::Or: r = a.lo | b.lo; break; case Instruction::Xor: r = a.lo ^ b.lo; break; case Instruction::LShr: ok = b.lo < x.w; if (ok) r = a.lo >> b.lo; break; case Instruction::Shl: ok = b.lo < x.w; if (ok) r = a.lo << b.lo; break; default: ok = false; } 
        if ((x.sub == Instruction::LShr || x.sub == Instruction::Shl || x.sub == Instruction::AShr) && b.lo >= x.w) report("shift", "shift amount not smaller than the operand width");
        if (ok) { u32 l = labComb(a.label, b.label); V v; v.lo = v.hi = r & M; v.label = l; R[x.dst] = v; break; } }
      else if (x.sub == Instruction::LShr || x.sub == Instruction::Shl || x.sub == Instruction::AShr) { V s = b; if (s.ext) norm(c.st, s, x.w); if (s.hi >= x.w) report(s.lo >= x.w || !(s.wide & W_HI) ? (s.lo >= x.w ? "shift" : "undecided-shift") : "undecided-shift", "shift amount not smaller than the operand width"); }
      { V v = bin(c.st, x.sub, x.w, a, b);
        if (x.sub == Instruction::Or && v.k == K_INT && x.w <= 64 && v.lo != v.hi) for (int sw = 0; sw < 2; sw++) { int p = sw ? x.b : x.a, q = sw ? x.a : x.b; int di = q >= 0 ? F.f->defs[q] : -1; if (di < 0) continue; const Inst& y = F.f->code[di]; if (y.op == I_BIN && y.sub == Instruction::Sub && y.b == p && y.a < 0 && P.consts[~y.a].isC() && !P.consts[~y.a].lo) { orNeg(OPD(p), x.w, v); break; } }
        R[x.dst] = v; } break; }
    case I_GEP: { V p = OPD(x.a);
      if (p.k == K_INT) { if (p.lo == 0 && p.hi == 0) p = mkNull(); else p = mkTopPtr(p.label); }
      if (p.k == K_VEC || p.k == K_AGG) p = mkTopPtr(p.label);
      i64 base = x.imm; bool sym = false; Ext se; if (p.k == K_PTR && p.ext) { se = gExts[p.ext]; sym = se.sym != 0; }
      if (!sym && p.k == K_PTR) { se = Ext(); se.symc = (p.lo == p.hi) ? (i64)p.lo : 0; }
      bool symOk = p.k == K_PTR && (sym || p.lo == p.hi);
      u64 cm = p.lo == p.hi ? 0 : (p.cm > 1 ? p.cm : 1), cr = p.lo == p.hi ? p.lo : p.cr; bool congOk = true; i64 lo = (i64)p.lo, hi = (i64)p.hi;
      lo += base; hi += base; cr += base; se.symc += base;
      if (!x.idx.empty()) for (size_t k = 0; k < x.idx.size(); k++) { V v = OPD(x.idx[k].first); i64 sc = x.idx[k].second; u32 w = x.argTy[k].w; if (v.k != K_INT) { p = mkTopPtr(labComb(p.label, v.label)); continue; } if (v.ext) norm(c.st, v, w);
          p.label = labComb(p.label, v.label); u64 M = maskW(w), H = M >> 1; i64 vl, vh; if (v.hi <= H || v.lo > H) { auto sxt = [&](u64 q) { return w >= 64 ? (i64)q : (i64)((q ^ (1ull << (w - 1))) - (1ull << (w - 1))); }; vl = sxt(v.lo); vh = sxt(v.hi); } else { vl = -(1ll << 40); vh = 1ll << 40; p.wide |= W_LO | W_HI; }
          if (vl < -(1ll << 50)) vl = -(1ll << 50); if (vh > (1ll << 50)) vh = 1ll << 50;
          if (v.lo == v.hi) { lo += vl * sc; hi += vl * sc; cr += vl * sc; se.symc += vl * sc; }
          else { i64 a1 = vl * sc, b1 = vh * sc; lo += std::min(a1, b1); hi += std::max(a1, b1); p.wide |= v.wide;
            u64 vm = v.cm > 1 ? (u64)v.cm * (u64)llabs(sc) : (u64)llabs(sc); u64 g = cm; u64 t = vm; while (t) { u64 q = g % t; g = t; t = q; } cm = g; if (v.cm > 1) cr += (u64)((i64)v.cr * sc); 
            const Ext& ve = gExts[v.ext]; if (ve.sym && (!se.sym || se.sym == ve.sym)) { se.sym = ve.sym; se.symk += ve.symk * sc; se.symc += ve.symc * sc; } else symOk = false; } }
      if (p.k == K_PTR) { p.lo = (u64)lo; p.hi = (u64)hi; (void)congOk; if (lo != hi && cm > 1 && cm < (1ull << 31)) { p.cm = (u32)cm; i64 m = (i64)cr % (i64)cm; if (m < 0) m += cm; p.cr = (u32)m; } else p.cm = p.cr = 0;
        p.ext = 0; if (symOk && se.sym) { se.facts = 0; se.pol = 0; se.cx = 0; if (se.symk) p.ext = internExt(se); }
        if (p.obj == 0 && (lo || hi) ) { } }
      R[x.dst] = p; break; }
    case I_LOAD: { const V& p = OPD(x.a); if (ub) alignUse(p, x.al);
      // fast path: exact, single byte
      V v = loadV(c.st, p, x.ty); R[x.dst] = v; break; }
    case I_STORE: { V v = OPD(x.b); if (ub) alignUse(OPD(x.a), x.al); storeV(c.st, OPD(x.a), v, x.ty, x.sub); break; }
    case I_ICMP: { const V &a = OPD(x.a), &b = OPD(x.b); if (x.argTy[0].k == T_VEC) { V r; r.k = K_VEC; std::vector<u32> z(x.argTy[0].n, labComb(a.label, b.label)); r.obj = internLanes(z); r.label = labComb(a.label, b.label); R[x.dst] = r; break; } V r = icmp(c.st, x.sub, x.w > 64 ? 128 : x.w, a, b, x.argTy[0].k == T_PTR); R[x.dst] = r; break; }
    case I_TRUNC: case I_ZEXT: case I_SEXT: { const V& a = OPD(x.a); if (x.ty.k == T_VEC || a.k == K_VEC) { V r = a; if (a.k == K_VEC && x.ty.k == T_VEC) { r.id = 0; } else r = mkTop(64, a.label); R[x.dst] = r; break; } if (narrowAtom >= 0 && x.op == I_TRUNC && x.w > 1 && a.k == K_INT && gLabels[a.label].may.test(narrowAtom)) { V t = a; if (t.ext) norm(c.st, t, 64); narrowSites.insert(x.I); if (t.hi > maskW(x.w)) report("narrow", "a length that may exceed " + std::to_string(x.w) + " bits is truncated"); }
      V r = castInt(a, x.argTy[0].w, x.w, x.op); R[x.dst] = r; break; }
    case I_P2I: case I_I2P: { V a = OPD(x.a); if (x.op == I_P2I && x.ty.w < 64 && a.k != K_INT) a = mkTop(x.ty.w, a.label); if (x.op == I_P2I && a.k == K_PTR && a.obj == 0) { a = mkRange(a.lo, a.hi, a.label); } if (x.op == I_I2P && a.k == K_INT) a = a.lo == 0 && a.hi == 0 ? mkNull() : mkTopPtr(a.label); R[x.dst] = a; break; }
    case I_FREEZE: R[x.dst] = OPD(x.a); break;
    case I_BITCAST: { V a = OPD(x.a); if (x.ty.k == T_VEC && a.k != K_VEC) { V r; r.k = K_VEC; r.label = a.label; r.id = a.id; r.idw = a.idw; r.obj = internLanes(std::vector<u32>(x.ty.n, a.label)); a = r; } else if (x.ty.k == T_VEC && a.k == K_VEC && gLanes[a.obj].size() != x.ty.n) { auto& L = gLanes[a.obj]; std::vector<u32> z(x.ty.n, a.label); if (x.ty.n > L.size()) { for (u32 i = 0; i < x.ty.n; i++) z[i] = L[i * L.size() / x.ty.n]; } else { for (u32 i = 0; i < x.ty.n; i++) { u32 k = L.size() / x.ty.n; z[i] = L[i * k]; for (u32 q = 1; q < k; q++) z[i] = labComb(z[i], L[i * k + q]); } } a.obj = internLanes(z); } else if (x.ty.k != T_VEC && a.k == K_VEC) { V r = mkTop(64, a.label); r.id = a.id; r.idw = a.idw; if (x.ty.k == T_INT) r.hi = maskW(x.ty.w); a = r; } R[x.dst] = a; break; }
    case I_SELECT: { V a = OPD(x.a), b = OPD(x.b), d = OPD(x.c);
      if (a.k == K_VEC) { V r = joinV(b, d, false); r.label = labComb(r.label, a.label); R[x.dst] = r; break; }
      if (a.k == K_INT && a.lo == a.hi) { R[x.dst] = a.lo ? b : d; break; }
      branches++; checkUse(a, "select");
      bool ptr = (b.k == K_PTR || b.k == K_FN || d.k == K_PTR || d.k == K_FN) && !(b.k == d.k && b.obj == d.obj); bool facts = a.ext && gExts[a.ext].facts && x.ty.k == T_INT;
      bool cons = x.ty.k == T_INT && b.isC() && d.isC() && (disjunctive || x.ty.w <= 32) && (disjunctive || facts);
      if (ptr || cons) { int& n = F.nest[-1 - ip]; if (n < 6) { n++; Cur k = c; k.regs[x.dst] = b; if (refineCond(F, k, x.a, true, 0)) { k.regs[x.dst] = b; run(F, std::move(k), bb, ip + 1, stops, outs); } curFrame = &F; R[x.dst] = d; bool ok = refineCond(F, c, x.a, false, 0); c.regs[x.dst] = d; if (ok) run(F, std::move(c), bb, ip + 1, stops, outs); F.nest[-1 - ip]--; return; } }
      if (x.ty.k == T_INT && !(b.isC() && d.isC())) { { Cur k = c; if (refineCond(F, k, x.a, true, 0)) { if (x.b >= 0) b = k.regs[x.b]; } } { Cur k = c; if (refineCond(F, k, x.a, false, 0)) { if (x.c >= 0) d = k.regs[x.c]; } } }
      V r = joinV(b, d, false); r.label = labComb(r.label, a.label); R[x.dst] = r; break; }
    case I_ALLOCA: { const V& n = OPD(x.a); ObjInfo inf; inf.kind = O_STACK; inf.size = x.imm * (n.isC() ? n.lo : 1); inf.dlabel = labelAtom(A_UNINIT); inf.site = x.I; inf.align = cast<AllocaInst>(x.I)->getAlign().value(); if (!n.isC()) { V m = n; if (m.ext) norm(c.st, m, 64); checkUse(m, "length"); report("undecided-vla", "variable-size stack allocation"); inf.size = x.imm * std::min<u64>(m.hi, 1 << 20); } u32 id = newObj(c.st, inf); c.allocas.push_back(id); R[x.dst] = mkPtr(id, 0); break; }
    case I_EXTELT: { const V &a = OPD(x.a), &i = OPD(x.b); u32 lab = a.label; if (a.k == K_VEC && i.isC() && i.lo < gLanes[a.obj].size()) lab = gLanes[a.obj][i.lo]; else if (!i.isC()) { checkUse(i, "address"); lab = labComb(lab, i.label); } V r = x.ty.k == T_PTR ? mkTopPtr(lab) : mkTop(std::min(64u, x.ty.w), lab); R[x.dst] = r; break; }
    case I_INSELT: { const V &a = OPD(x.a), &e = OPD(x.b), &i = OPD(x.c); std::vector<u32> z; if (a.k == K_VEC) z = gLanes[a.obj]; z.resize(x.ty.n, a.label); if (i.isC() && i.lo < z.size()) z[i.lo] = e.label; else { checkUse(i, "address"); for (auto& q : z) q = labComb(q, labComb(e.label, i.label)); } V r; r.k = K_VEC; r.obj = internLanes(z); r.label = z[0]; for (auto q : z) r.label = labComb(r.label, q); R[x.dst] = r; break; }
    case I_SHUF: { const V &a = OPD(x.a), &b = OPD(x.b); std::vector<u32> za = a.k == K_VEC ? gLanes[a.obj] : std::vector<u32>(x.args.size(), a.label), zb = b.k == K_VEC ? gLanes[b.obj] : std::vector<u32>(za.size(), b.label), z; for (int m : x.args) z.push_back(m < 0 ? 0 : (size_t)m < za.size() ? za[m] : zb[std::min(m - za.size(), zb.size() - 1)]); V r; r.k = K_VEC; r.obj = internLanes(z); r.label = z[0]; for (auto q : z) r.label = labComb(r.label, q); bool idm = z.size() == za.size(); for (size_t i = 0; i < x.args.size(); i++) if (x.args[i] != (int)i) idm = false; if (idm && a.k == K_VEC) { r.id = a.id; r.idw = a.idw; } R[x.dst] = r; break; }
    case I_EXTVAL: { V a = OPD(x.a); bool ok = true; for (int m : x.args) { if (a.k == K_AGG && (size_t)m < gAggs[a.obj].size()) { V t = gAggs[a.obj][m]; a = t; } else ok = false; } if (!ok) { u32 l = a.label; if (x.ty.k == T_PTR) a = mkTopPtr(l); else if (x.ty.k == T_VEC) { a = V(); a.k = K_VEC; a.label = l; a.obj = internLanes(std::vector<u32>(x.ty.n, l)); } else a = mkTop(x.ty.k == T_INT ? x.ty.w : 64, l); } R[x.dst] = a; break; }
    case I_INSVAL: { V a = OPD(x.a), b = OPD(x.b); std::vector<V> e; if (a.k == K_AGG) e = gAggs[a.obj]; e.resize(std::max<size_t>(x.ty.n, 1)); if (x.args.size() == 1) e[x.args[0]] = b; else { report("undecided-aggregate", "nested insertvalue"); } V r; r.k = K_AGG; gAggs.push_back(e); r.obj = gAggs.size() - 1; r.label = labComb(a.label, b.label); R[x.dst] = r; break; }
    case I_CALL: { if (ub) for (auto& q : x.idx) alignUse(OPD(x.args[q.first]), q.second);
      Fn* g = x.callee; std::vector<V> args; args.reserve(x.args.size()); for (int o : x.args) args.push_back(OPD(o));
      if (!g && !x.sub) { const V& p = OPD(x.a); if (p.k == K_FN) g = P.fnv[p.obj]; else { report("undecided-call", "indirect call target not resolved"); if (x.dst >= 0) R[x.dst] = x.ty.k == T_PTR ? mkTopPtr(0) : mkTop(64, 0); break; } }
      if (x.sub) { externals.insert("inline asm: " + cast<InlineAsm>(cast<CallBase>(x.I)->getCalledOperand())->getAsmString()); u32 l = 0; for (auto& a : args) l = labComb(l, a.label); if (x.dst >= 0) R[x.dst] = x.ty.k == T_PTR ? mkTopPtr(l) : mkTop(x.ty.k == T_INT ? x.ty.w : 64, l); break; }
      std::vector<Out> res; mret = V();
      int m = model(g, c, args, &x, res); R = c.regs.data();
      if (m == 1) { if (x.dst >= 0) R[x.dst] = mret; break; }
      if (m == 0) {
        if (!g->hasBody) { externals.insert(g->name); report("unknown-call", "call of unmodelled external function " + g->name); u32 l = 0; for (auto& a : args) l = labComb(l, a.label);
          // the callee may read what its pointer arguments designate; value-dependent running time of the string functions counts as a use
          static const std::set<std::string> vt = {"memchr", "memrchr", "rawmemchr", "memmem", "strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strcpy", "strncpy", "stpcpy", "strcat", "strncat", "memccpy", "qsort", "bsearch", "printf", "fprintf", "sprintf", "snprintf", "fwrite", "write", "puts", "div", "ldiv", "pow", "fmod", "sqrt"};
          { for (auto& a : args) if (a.k == K_PTR && a.obj) if (const Obj* po = c.st.objs.get(a.obj)) { if (!gObjInfo[po->id].symbolic && po->size && (i64)a.lo >= 0 && a.lo < po->size) { u8 bl, bh; u32 la; summary(po, a.lo, po->size, bl, bh, la); if (la) { LabelBits b = gLabels[la]; b.may.clr(A_UNINIT); b.may.clr(A_MAYUN); b.must = Atoms(); la = internLabel(b); } l = labComb(l, la); } else l = labComb(l, labComb(po->dlabel, po->sumLabel)); }
            if (vt.count(g->name)) { V v; v.label = l; checkUse(v, "operand of a variable-time library function"); } }
          if (x.dst >= 0) R[x.dst] = x.ty.k == T_PTR ? mkTopPtr(l) : mkTop(x.ty.k == T_INT ? x.ty.w : 64, l); break; }
        if (memoOn && isPure(g)) { 
          u64 h = 1469598103934665603ull; for (auto& a : args) { a.id = 0; a.idw = 0; a.ext = 0; if (a.k == K_INT) { a.obj = a.pad2 = 0; } h = (h ^ a.label ^ ((u64)a.obj << 32)) * 1099511628211ull; h = (h ^ a.lo) * 1099511628211ull; h = (h ^ a.hi) * 1099511628211ull; }
          auto it = g->memo.find(h); bool hit = false; if (it != g->memo.end()) for (auto& e : it->second) { bool eq = e.first.size() == args.size(); for (size_t i = 0; eq && i < args.size(); i++) if (!sameV(e.first[i], args[i])) eq = false; if (eq) { g->memoHits++; g->calls++; R[x.dst] = e.second; hit = true; break; } }
          if (hit) break;
          u32 f0 = c.st.facts; Cur k; k.st = c.st; std::vector<V> ac = args; std::vector<Out> r2 = call(g, std::move(k), args, &x); curFrame = &F; curInst = &x; code = f->code.data();
          if (aborted) return;
          if (r2.empty()) return; // every path dies (assertion)
          V r = r2[0].ret; for (size_t i = 1; i < r2.size(); i++) r = joinV(r, r2[i].ret, false); r.id = 0; r.idw = 0; if (r.k == K_INT) { r.obj = r.pad2 = 0; } r.ext = 0; (void)f0; if (!muted && g->memo.size() < 400000) g->memo[h].push_back({ac, r}); R[x.dst] = r; break; }
        std::vector<V> saved = std::move(c.regs); std::vector<u32> sal = std::move(c.allocas); c.regs.clear(); c.allocas.clear();
        res = call(g, std::move(c), std::move(args), &x); curFrame = &F; curInst = &x; code = f->code.data(); if (aborted) return;
        if (res.empty()) return;
        if (res.size() == 1) { c = std::move(res[0].c); c.regs = std::move(saved); c.allocas = std::move(sal); R = c.regs.data(); if (x.dst >= 0) R[x.dst] = res[0].ret; break; }
        for (auto& o : res) { o.c.regs = saved; o.c.allocas = sal; }
      }
      // several outcomes
      if (res.empty()) return;
      { int& n = F.nest[-1000000 - ip]; if (n >= (disjunctive ? 3 : 2) ) { Out& a = res[0]; for (size_t i = 1; i < res.size(); i++) { joinState(a.c.st, res[i].c.st, false); a.ret = joinV(a.ret, res[i].ret, false); } c = std::move(a.c); R = c.regs.data(); if (x.dst >= 0) R[x.dst] = a.ret; break; }
        n++; std::vector<PathOut> sub; for (auto& o : res) { if (x.dst >= 0) o.c.regs[x.dst] = o.ret; run(F, std::move(o.c), bb, ip + 1, stops, outs); curFrame = &F; if (aborted) return; } F.nest[-1000000 - ip]--; return; } }
    case I_RET: { V v; if (x.sub) v = OPD(x.a); leave(c); outs.push_back({-1, std::move(c), v}); return; }
    case I_BR: { if (x.m0) phi(c, *x.m0); int to = x.s0; for (auto& s : stops) if (s.kind == 0 && s.block == to) { outs.push_back({to, std::move(c), V()}); return; } bb = to; ip = f->bbs[to].start; continue; }
    case I_CONDBR: case I_SWITCH: {
      if (termStops) for (auto& s : stops) if (s.kind == 1 && s.block == x.bb) { outs.push_back({-2 - x.bb, std::move(c), V()}); return; }
      V cv = OPD(x.a); branches++; if (!muted && x.I) { if (branches < 100000 || (branches & 63) == 0) brSites.insert(x.I); }
      if (cv.ext) norm(c.st, cv, x.op == I_CONDBR ? 1 : x.w);
      int arm = -1; if (cv.k == K_INT && cv.lo == cv.hi) { if (x.op == I_CONDBR) arm = cv.lo ? 0 : 1; else { arm = 0; for (size_t i = 0; i < x.idx.size(); i++) if ((u64)x.idx[i].second == cv.lo) { arm = (int)i + 1; break; } } }
      else if (cv.k == K_PTR || cv.k == K_FN) arm = (x.op == I_CONDBR) ? 0 : -1;
      if (arm == 0 && f->bbs[x.bb].accel != 1 && x.op == I_CONDBR && accelLoop(F, c, x.bb)) { R = c.regs.data(); ip = f->bbs[x.bb].start; continue; }
      if (arm >= 0) { if (cv.label && (cv.ext || true)) { const LabelBits& lb = gLabels[cv.label]; if (lb.may.test(A_UNINIT)) checkUse(cv, "branch condition"); }
        if (cv.ext) { const Ext& e = gExts[cv.ext]; if ((e.pol == 2 && cv.lo) || (e.pol == 1 && !cv.lo)) addFacts(c, e.facts); }
        int to = succOf(x, arm); const std::vector<PhiMove>* mv = x.op == I_CONDBR ? (arm == 0 ? x.m0 : x.m1) : nullptr; if (x.op == I_SWITCH) { auto it = f->bbs[to].phiIn.find(x.bb); if (it != f->bbs[to].phiIn.end()) mv = &it->second; } if (mv) phi(c, *mv);
        for (auto& s : stops) if (s.kind == 0 && s.block == to) { outs.push_back({to, std::move(c), V()}); return; }
        bb = to; ip = f->bbs[to].start; continue; }
      undecidedBranches++; checkUse(cv, "branch condition");
      int p = fork(F, c, x, stops, outs); curFrame = &F; if (p < 0) return; R = c.regs.data(); bb = p; ip = f->bbs[p].start; continue; }
    case I_UNREACH: if (ub) { reachChecks++; const Instruction* pi = x.I ? x.I->getPrevNode() : nullptr; while (pi && isa<DbgInfoIntrinsic>(pi)) pi = pi->getPrevNode(); auto* pc = dyn_cast_or_null<CallBase>(pi); if (!pc || !pc->doesNotReturn()) report("end-reached", "execution can reach a point the language leaves undefined (end of a value-returning function or an unreachable statement)"); } return;
    case I_NOP: break;
    default: report("undecided-instruction", std::string("unsupported instruction ") + (x.I ? x.I->getOpcodeName() : "?")); if (x.dst >= 0) R[x.dst] = x.ty.k == T_PTR ? mkTopPtr(0) : mkTop(64, 0); break;
    }
    ip++;
  }
}
