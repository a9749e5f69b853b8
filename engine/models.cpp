// Models of the C library, compiler intrinsics, the Keccak sponge API, OpenSSL's EVP interface and scenario stubs.
#include "interp.h"
using namespace llvm;
typedef __int128 i128;
enum Mod { M_NONE = 0, M_MEMCPY, M_MEMMOVE, M_MEMSET, M_MEMCMP, M_MALLOC, M_CALLOC, M_ALIGNED, M_POSIXMEM, M_FREE, M_BZERO, M_XBZERO, M_GETRANDOM, M_ARC4, M_OPEN, M_CLOSE, M_READ, M_IOCTL, M_FCNTL, M_ERRNO, M_ASSERT, M_NOP, M_EXPECT, M_LIFE, M_LIFEEND, M_BSWAP, M_ROT, M_CNT, M_MINMAX, M_OVF, M_OBJSIZE, M_LLVM, M_KINIT, M_KUPD, M_KFIN, M_KSQ, M_K4INIT, M_K4UPD, M_K4FIN, M_K4SQ, M_EVPCIPH, M_EVPNEW, M_EVPFREE, M_EVPINIT, M_EVPUPD, M_EVPFIN, M_STUB, M_REALLOC, M_STRLEN, M_ABS, M_MEMSETCHK, M_EVPSTATUS };
static const std::map<std::string, int>& table() { static const std::map<std::string, int> t = {
  {"memcpy", M_MEMCPY}, {"memmove", M_MEMMOVE}, {"memset", M_MEMSET}, {"memcmp", M_MEMCMP}, {"bcmp", M_MEMCMP}, {"malloc", M_MALLOC}, {"calloc", M_CALLOC}, {"realloc", M_REALLOC}, {"aligned_alloc", M_ALIGNED}, {"memalign", M_ALIGNED}, {"posix_memalign", M_POSIXMEM}, {"free", M_FREE}, {"bzero", M_BZERO}, {"explicit_bzero", M_XBZERO}, {"getrandom", M_GETRANDOM}, {"arc4random_buf", M_ARC4}, {"open", M_OPEN}, {"open64", M_OPEN}, {"close", M_CLOSE}, {"read", M_READ}, {"ioctl", M_IOCTL}, {"fcntl", M_FCNTL}, {"fcntl64", M_FCNTL}, {"__errno_location", M_ERRNO}, {"__assert_fail", M_ASSERT}, {"abort", M_ASSERT}, {"exit", M_ASSERT}, {"llvm.trap", M_ASSERT}, {"strlen", M_STRLEN},
  {"Keccak_HashInitialize", M_KINIT}, {"Keccak_HashUpdate", M_KUPD}, {"Keccak_HashFinal", M_KFIN}, {"Keccak_HashSqueeze", M_KSQ}, {"Keccak_HashInitializetimes4", M_K4INIT}, {"Keccak_HashUpdatetimes4", M_K4UPD}, {"Keccak_HashFinaltimes4", M_K4FIN}, {"Keccak_HashSqueezetimes4", M_K4SQ},
  {"EVP_CIPHER_CTX_new", M_EVPNEW}, {"EVP_CIPHER_CTX_free", M_EVPFREE}, {"EVP_EncryptInit_ex", M_EVPINIT}, {"EVP_EncryptInit_ex2", M_EVPINIT}, {"EVP_EncryptInit", M_EVPINIT}, {"EVP_CipherInit_ex", M_EVPINIT}, {"EVP_EncryptUpdate", M_EVPUPD}, {"EVP_CipherUpdate", M_EVPUPD}, {"EVP_EncryptFinal_ex", M_EVPFIN}, {"EVP_EncryptFinal", M_EVPFIN}, {"EVP_CipherFinal_ex", M_EVPFIN}, {"EVP_CIPHER_CTX_set_padding", M_EVPSTATUS}, {"EVP_CIPHER_CTX_reset", M_EVPSTATUS} }; return t; }
static bool pre(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
int Interp::modelId(Fn* f) {
  if (f->mdl >= 0) return f->mdl;
  const std::string& n = f->name; int m = M_NONE;
  for (auto& kv : stubCfg) { const std::string& p = kv.first; bool hit = p == n; if (!hit && !p.empty() && p[0] == '*') hit = n.size() >= p.size() - 1 && n.compare(n.size() - (p.size() - 1), std::string::npos, p.substr(1)) == 0; if (!hit && !p.empty() && p.back() == '*') hit = n.compare(0, p.size() - 1, p.substr(0, p.size() - 1)) == 0; if (hit) { stubOf[f->id] = &kv.second; return f->mdl = M_STUB; } }
  auto it = table().find(n); 
  if (it != table().end()) { m = it->second; bool keccakReal = pre(n, "Keccak_") && cfg.getBoolean("realKeccak").value_or(false); if (keccakReal) m = M_NONE; if (f->hasBody && !pre(n, "Keccak_")) m = M_NONE; }
  else if (pre(n, "EVP_aes_") && !f->hasBody) m = M_EVPCIPH;
  else if (pre(n, "llvm.")) {
    if (pre(n, "llvm.memcpy")) m = M_MEMCPY; else if (pre(n, "llvm.memmove")) m = M_MEMMOVE; else if (pre(n, "llvm.memset")) m = M_MEMSET; else if (pre(n, "llvm.lifetime.start")) m = M_LIFE; else if (pre(n, "llvm.lifetime.end")) m = M_LIFEEND;
    else if (pre(n, "llvm.expect") || pre(n, "llvm.threadlocal.address")) m = M_EXPECT; else if (pre(n, "llvm.bswap")) m = M_BSWAP; else if (pre(n, "llvm.fsh")) m = M_ROT; else if (pre(n, "llvm.ctpop") || pre(n, "llvm.ctlz") || pre(n, "llvm.cttz")) m = M_CNT; else if (pre(n, "llvm.umin") || pre(n, "llvm.umax") || pre(n, "llvm.smin") || pre(n, "llvm.smax")) m = M_MINMAX; else if (n.find(".with.overflow") != std::string::npos) m = M_OVF; else if (pre(n, "llvm.objectsize")) m = M_OBJSIZE; else if (pre(n, "llvm.abs")) m = M_ABS;
    else if (pre(n, "llvm.assume") || pre(n, "llvm.dbg") || pre(n, "llvm.donothing") || pre(n, "llvm.stack") || pre(n, "llvm.prefetch") || pre(n, "llvm.experimental.noalias") || pre(n, "llvm.invariant")) m = M_NOP; else m = M_LLVM; }
  return f->mdl = m; }

std::string Interp::idName(u32 id) { auto it = std::upper_bound(ids.begin(), ids.end(), id, [](u32 v, const IdRange& r) { return v < r.base; }); if (it == ids.begin()) return ""; --it; if (id >= it->base + it->len) return ""; u32 o = id - it->base;
  switch (it->kind) { case IDK_INPUT: return "I:" + gObjInfo[it->rec].name + "+" + std::to_string(it->off + o); case IDK_HASH: return "H" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); case IDK_PRG: return "P" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); case IDK_RNG: return "R" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); case IDK_OWF: return "O" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); case IDK_KS: return "K" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); case IDK_SIGOUT: return "S" + std::to_string(it->rec) + "+" + std::to_string(it->off + o); } return ""; }
static std::string linStr(Interp& I, u32 ext) { if (!ext) return "0"; const Ext& e = gExts[ext]; std::string s; if (e.sym && e.symk) { s = (e.symk == 1 ? std::string() : std::to_string(e.symk) + "*") + I.symNames[e.sym]; if (e.symc) s += (e.symc > 0 ? "+" : "") + std::to_string(e.symc); } else s = std::to_string(e.symc); return s; }
std::string Interp::segStr(const Seg& g) { char b[32];
  switch (g.k) { case 1: snprintf(b, sizeof b, "c%02x", g.val); return b; case 2: return "?" + std::to_string(g.len);
    case 3: { std::string o = "Y:" + objName(g.obj) + "[" + linStr(*this, g.offExt) + ";"; if (g.val == 2) o += std::to_string(g.len); else if (g.val == 1) o += "?"; else o += linStr(*this, g.lenExt); return o + "]"; }
    default: { std::string r; u32 i = 0; while (i < g.len) { auto it = std::upper_bound(ids.begin(), ids.end(), g.id + i, [](u32 v, const IdRange& x) { return v < x.base; }); u32 n; std::string nm; if (it != ids.begin() && g.id + i < (it - 1)->base + (it - 1)->len) { n = std::min(g.len - i, (it - 1)->base + (it - 1)->len - (g.id + i)); nm = idName(g.id + i); } else { u32 nx = it == ids.end() ? ~0u : it->base; n = std::min(g.len - i, nx - (g.id + i)); nm = "v" + std::to_string(g.id + i); } if (!r.empty()) r += ","; r += nm + ":" + std::to_string(n); i += n; } return r; } } }
std::string Interp::segStr(const std::vector<Seg>& v) { std::string r; for (auto& g : v) { if (!r.empty()) r += ","; r += segStr(g); } return r; }

// ------------------------------------------------------------------------- heap
u32 Interp::heapAlloc(Cur& c, const V& n0, bool zero, const Inst* site, const char* fn) {
  V n = n0; if (n.ext) norm(c.st, n, 64); checkUse(n, "length"); ObjInfo inf; inf.kind = O_HEAP; inf.site = site ? site->I : nullptr; if (!muted) { allocSites.insert(here()); counters["allocations"]++; }
  if (zero) { inf.dlo = inf.dhi = 0; } else inf.dlabel = labelAtom(A_UNINIT);
  if (n.isC()) { inf.size = n.lo; if (n.lo > (1ull << 31)) { report("huge-alloc", std::string(fn) + " of " + std::to_string(n.lo) + " bytes"); inf.size = 1 << 20; } }
  else if (n.ext && gExts[n.ext].sym) { inf.symbolic = true; Ext e = gExts[n.ext]; e.facts = 0; e.pol = 0; e.cx = 0; inf.sizeExt = internExt(e); inf.size = 0; }
  else { inf.size = n.lo < (1u << 20) ? n.lo : (1u << 20); report("undecided-alloc", "allocation size not resolved"); }
  inf.align = 16; u32 id = newObj(c.st, inf); return id; }
void Interp::freeModel(Cur& c, const V& p, const char* what) {
  if ((p.k == K_PTR && p.obj == 0 && p.lo == 0 && p.hi == 0) || (p.k == K_INT && p.lo == 0 && p.hi == 0)) return;
  if (p.k != K_PTR || !p.obj) { report(p.k == K_TOPPTR ? "undecided-free" : "bad-free", std::string(what) + " of an unresolved or invalid pointer"); topFree = true; return; }
  ObjKind k = gObjInfo[p.obj].kind; bool ciph = std::string(what) == "EVP_CIPHER_CTX_free";
  if (k != (ciph ? O_CIPHER : O_HEAP)) { report("bad-free", std::string(what) + " of a pointer it did not allocate: " + objName(p.obj)); return; }
  Obj* o = c.st.objs.get(p.obj); if (!o) { report("bad-free", std::string(what) + " of a dead object"); return; }
  if (p.lo != 0 || p.hi != 0) report("bad-free", std::string(what) + " of a pointer into the middle of " + objName(p.obj));
  if (o->st == S_FREED) { report("double-free", std::string(what) + " of memory already released: " + objName(p.obj)); return; }
  if (o->st == S_MAYBE) report("double-free", std::string(what) + " of memory already released on some path: " + objName(p.obj));
  if (!muted) counters["frees"]++;
  o = mutObj(c.st, p.obj); o->st = S_FREED; o->pages.assign(o->pages.size(), Ref<Page>()); o->cells.clear(); killHctx(c.st, p.obj); }

// ----------------------------------------------------------------------- memcmp
V Interp::memcmpModel(State& s, const V& a, const V& b, const V& n, bool ctFlag, u32 extraLabel) {
  u32 la = 0, lb = 0; std::vector<Seg> x = readSegs(s, a, n, "comparison operand", la), y = readSegs(s, b, n, "comparison operand", lb); (void)x; (void)y; u32 lab = labComb(la, lb); V r = mkTop(32, lab); V nn = n; if (nn.ext) norm(s, nn, 64);
  if (ctFlag) { V t = mkTop(8, lab); checkUse(t, "comparison operand"); }
  else initUse(lab, "comparison operand");
  if (nn.isC() && nn.lo == 0) return mkC(0);
  if (nn.isC() && nn.lo <= 65536 && a.k == K_PTR && b.k == K_PTR && a.lo == a.hi && b.lo == b.hi && a.obj && b.obj) { Obj *p = s.objs.get(a.obj), *q = s.objs.get(b.obj);
    if (p && q && !gObjInfo[a.obj].symbolic && !gObjInfo[b.obj].symbolic && (i64)a.lo >= 0 && a.lo + nn.lo <= p->size && (i64)b.lo >= 0 && b.lo + nn.lo <= q->size) { std::vector<Fact> f; bool allEq = true, diff = false, ok = true; for (u64 i = 0; i < nn.lo; i++) { u8 l1, h1, l2, h2; u32 b1, b2, i1, i2; getByte(p, a.lo + i, l1, h1, b1, i1); getByte(q, b.lo + i, l2, h2, b2, i2); bool same = (l1 == h1 && l2 == h2 && l1 == l2) || (i1 && i1 == i2); if (!same) { allEq = false; if (i1 && i2) f.push_back({F_EQ, std::min(i1, i2), std::max(i1, i2)}); else ok = false; } if (h1 < l2 || h2 < l1) diff = true; }
      if (allEq) return mkC(0, lab); (void)diff; (void)ok;
      if (!f.empty()) { Ext e; e.facts = internFacts(f); e.pol = 1; r.ext = internExt(e); } } }
  (void)extraLabel; return r; }

// ----------------------------------------------------------------------- hashing
HCtx* Interp::hctxMut(State& s, u64 key) { for (auto& h : s.hctx) if (h.first == key) return h.second.mut(); return nullptr; }
static bool ctxKey(Interp& I, const V& p, u64& k) { if (p.k != K_PTR || !p.obj || p.lo != p.hi) return false; k = (u64)p.obj << 32 | ((p.lo & 0x3fffffff) << 2); return true; }
static void push(std::vector<Seg>& v, const Seg& g) { if (!v.empty()) { Seg& q = v.back(); if (g.k == 0 && q.k == 0 && q.id + q.len == g.id && q.label == g.label) { q.len += g.len; return; } } v.push_back(g); }
void Interp::absorb(State& s, u64 key, const V& p, const V& n) {
  HCtx* h = hctxMut(s, key); u32 lab = 0; std::vector<Seg> g = readSegs(s, p, n, "hash input", lab); h = hctxMut(s, key);
  initUse(lab, "hash input");
  if (!h) { report("hash-misuse", "update of a hash context that is not initialised on every path"); return; }
  if (h->phase) report("hash-misuse", "update of a finalised hash context");
  if (!g.empty()) h->label = labComb(h->label, lab);
  for (auto& t : h->alts) { Transcript* m = t.mut(); for (auto& x : g) push(m->segs, x); } }
void Interp::hashFinal(State& s, u64 key) {
  HCtx* h = hctxMut(s, key); if (!h) { report("hash-misuse", "final of a hash context that is not initialised on every path"); return; }
  if (h->phase) { report("hash-misuse", "hash context finalised twice"); return; }
  h->phase = 1; HashRec r; r.rate = h->rate; r.suffix = h->suffix; r.alts = h->alts; r.label = h->label; r.unbounded = h->unbounded; r.muted = muted > 0; r.squeezed = 0; if (!muted) { r.where = here(); r.stack = stackStr(); } h->rec = (u32)hrecs.size() + 1; h->squeezed = 0; hrecs.push_back(std::move(r)); }
void Interp::hashSqueeze(State& s, u64 key, const V& dst, const V& bits) {
  V n = bits; if (n.ext) norm(s, n, 64); checkUse(n, "length"); if (!n.isC()) { report("undecided-squeeze", "squeeze length not resolved"); return; } u64 len = n.lo / 8; if (n.lo & 7) report("hash-misuse", "squeeze of a partial byte"); if (!len) return;
  HCtx* h = hctxMut(s, key); if (!h) { report("hash-misuse", "squeeze of a hash context that is not initialised on every path"); writeFresh(s, dst, len, 0, fresh(len), "hash output"); return; }
  if (!h->phase) report("hash-misuse", "squeeze before finalisation");
  bool chal = !h->alts.empty() && !h->unbounded; for (auto& t : h->alts) if (t->segs.empty() || t->segs.back().k != 1 || t->segs.back().val < 2) chal = false;
  u32 rec = h->rec ? h->rec - 1 : 0, off = h->squeezed; u32 base = 0; u32 lab; bool canon = false;
  if (terms && h->alts.size() == 1 && !h->unbounded && off + len <= 256) { K128 k; k.a = h->rate * 1000 + h->suffix; std::vector<u32> in; if (termIn(h->alts[0]->segs, k, &in)) { base = oracleOut(k, 256, IDK_HASH, rec, 0, false, in) + off; canon = true; } }
  if (!canon) base = fresh(len);
  if (chal) { int a; if (muted || gAtomNames.size() >= 110) a = atomIndex("CHX"); else { static int k = 0; a = atomIndex("CH" + std::to_string(k++)); } if (rec < hrecs.size()) { hrecs[rec].atom = a; hrecs[rec].sqAtom[off] = a; } u32& ab = atomAbs[a]; ab = labComb(ab, h->label); lab = labComb(labelAtom(a), labelAtom(atomHash)); if (!ctMask.test(a)) { ctMask.set(a); labFlag.clear(); } }
  else lab = labComb(h->label, labelAtom(atomHash));
  LabelBits lb = gLabels[lab]; if (lb.may.test(A_UNINIT)) { lb.may.clr(A_UNINIT); lab = internLabel(lb); }
  h->squeezed += len; if (h->rec && !terms) ids.push_back({base, (u32)len, IDK_HASH, rec, off}); if (h->rec && rec < hrecs.size()) { hrecs[rec].sq.push_back({off, (u32)len, base}); hrecs[rec].squeezed = h->squeezed; }
  writeFresh(s, dst, len, lab, base, "hash output"); }

static u64 structSize(Interp& I, const char* n, u64 dflt) { StructType* t = StructType::getTypeByName(I.P.ctx, n); if (!t || t->isOpaque()) return dflt; return I.P.M->getDataLayout().getTypeAllocSize(t); }

int Interp::model(Fn* f, Cur& c, std::vector<V>& a, const Inst* site, std::vector<Out>& outs) {
  int m = modelId(f); if (m == M_NONE) return 0; State& s = c.st; Ty rt = site ? site->ty : Ty();
  auto topRet = [&](u32 lab) { if (rt.k == T_PTR) return mkTopPtr(lab); if (rt.k == T_VEC) { V v; v.k = K_VEC; v.label = lab; v.obj = internLanes(std::vector<u32>(rt.n, lab)); return v; } if (rt.k == T_INT) return mkTop(rt.w, lab); return mkTop(64, lab); };
  auto count = [&](State& st, const char* w) { unsigned n = 0; for (const Ev* e = st.ev.p; e; e = e->prev.p) if (e->json.find(w) != std::string::npos) n++; return n; };
  auto emit = [&](State& st, json::Object e) { e["where"] = here(); std::string js; raw_string_ostream os(js); os << json::Value(std::move(e)); event(st, os.str()); };
  auto addOut = [&](const State& st, V ret) { Out o; o.c.st = st; o.c.regs = c.regs; o.c.allocas = c.allocas; o.ret = ret; outs.push_back(std::move(o)); };
  auto taintFail = [&](State& st, const V& p, const V& n) { if (!n.isC() || !n.lo) return; i64 lo, hi; Obj* o; if (resolve(st, p, n.lo, true, lo, hi, o, "random buffer")) { u32 id = o->id; o = mutObj(st, id); u32 fl = labelAtom(atomIndex("RNGFAIL")); for (u64 i = 0; i < n.lo; i++) { u8 x, y; u32 l, q; getByte(o, lo + i, x, y, l, q); if (lo == hi) putByte(o, lo + i, x, y, labComb(l, fl), 0); else weakRange(o, lo + i, hi + i + 1, 0, 255, fl); } } };
  auto linj = [&](V v) { json::Object j; if (v.ext) norm(s, v, 64); j["lo"] = (i64)v.lo; j["hi"] = (i64)v.hi; if (v.ext && gExts[v.ext].sym) { j["sym"] = symNames[gExts[v.ext].sym]; j["k"] = gExts[v.ext].symk; j["c"] = gExts[v.ext].symc; } return json::Value(std::move(j)); };
  auto ptrj = [&](V v) { json::Object j; if (v.k == K_PTR) { j["obj"] = v.obj ? objName(v.obj) : std::string("null"); j["off"] = linj(v); } else j["obj"] = "?"; return json::Value(std::move(j)); };
  switch (m) {
  case M_NOP: return 1;
  case M_MEMCPY: case M_MEMMOVE: { V d = a[0]; copyMem(s, d, a[1], a[2], m == M_MEMMOVE); mret = d; return 1; }
  case M_MEMSET: { V d = a[0]; V val = a[1]; if (val.isC()) val = mkC(val.lo & 255, val.label); else val = mkRange(0, 255, val.label); setMem(s, d, val, a[2], false); mret = d; return 1; }
  case M_BZERO: setMem(s, a[0], mkC(0), a[1], false); return 1;
  case M_XBZERO: { setMem(s, a[0], mkC(0), a[1], true); if (logEv) { json::Object e; e["ev"] = "explicit_bzero"; e["p"] = ptrj(a[0]); e["n"] = linj(a[1]); emit(s, std::move(e)); } return 1; }
  case M_MEMCMP: mret = memcmpModel(s, a[0], a[1], a[2], true, 0); return 1;
  case M_STRLEN: report("undecided-strlen", "strlen"); mret = mkTop(64, a[0].label); return 1;
  case M_MALLOC: mret = mkPtr(heapAlloc(c, a[0], false, site, "malloc"), 0); return 1;
  case M_CALLOC: { V x = a[0], y = a[1]; if (x.ext) norm(s, x, 64); if (y.ext) norm(s, y, 64); V n = bin(s, Instruction::Mul, 64, x, y); mret = mkPtr(heapAlloc(c, n, true, site, "calloc"), 0); return 1; }
  case M_ALIGNED: { V n = a[1]; if (a[0].isC() && n.isC() && a[0].lo && n.lo % a[0].lo) report("bad-align", "aligned allocation size is not a multiple of the alignment"); { u32 id = heapAlloc(c, n, false, site, "aligned_alloc"); if (a[0].isC() && a[0].lo < (1u << 20)) gObjInfo[id].align = a[0].lo; mret = mkPtr(id, 0); } return 1; }
  case M_POSIXMEM: { u32 pid = heapAlloc(c, a[2], false, site, "posix_memalign"); if (a[1].isC() && a[1].lo < (1u << 20)) gObjInfo[pid].align = a[1].lo; V p = mkPtr(pid, 0); Ty t; t.k = T_PTR; t.w = 64; t.bytes = 8; storeV(s, a[0], p, t, false); mret = mkC(0); return 1; }
  case M_REALLOC: { V np = mkPtr(heapAlloc(c, a[1], false, site, "realloc"), 0); if (a[0].k == K_PTR && a[0].obj) { Obj* o = s.objs.get(a[0].obj); if (o && a[1].isC()) copyMem(s, np, a[0], mkC(std::min(o->size, a[1].lo)), false); freeModel(c, a[0], "realloc"); } mret = np; return 1; }
  case M_FREE: if (logEv && a[0].k == K_PTR && a[0].obj) { Obj* o = s.objs.get(a[0].obj); if (o) { json::Object e; e["ev"] = "free"; i64 nz = 0; for (u64 i = 0; i < o->size && i < 4096; i++) { u8 x, y; u32 l, q; getByte(o, i, x, y, l, q); if (x || y) nz++; } e["size"] = (i64)o->size; e["notZero"] = nz; emit(s, std::move(e)); } } freeModel(c, a[0], "free"); return 1;
  case M_ERRNO: { if (!errnoObj) { report("undecided-errno", "errno"); mret = mkTopPtr(0); return 1; } mret = mkPtr(errnoObj, 0); return 1; }
  case M_ASSERT: return 2;
  case M_EXPECT: mret = a[0]; return 1;
  case M_OBJSIZE: mret = mkTop(64, 0); mret = mkC(~0ull & maskW(rt.w)); return 1;
  case M_LIFE: case M_LIFEEND: { V p = a[1]; if (p.k == K_PTR && p.obj && p.lo == p.hi && p.lo == 0) { Obj* o = s.objs.get(p.obj); if (o && gObjInfo[p.obj].kind == O_STACK) { bool clean = o->cells.empty() && !o->touched; for (auto& q : o->pages) if (q) clean = false; if (!clean) { o = mutObj(s, p.obj); for (auto& q : o->pages) q = Ref<Page>(); o->cells.clear(); o->touched = false; } if (!s.hctx.empty()) killHctx(s, p.obj); } } return 1; }
  case M_BSWAP: { if (rt.k == T_INT && a[0].isC()) { u64 v = a[0].lo; u64 r = 0; for (u32 i = 0; i < rt.w / 8; i++) r |= ((v >> (8 * i)) & 255) << (rt.w - 8 - 8 * i); mret = mkC(r, a[0].label); } else mret = topRet(a[0].label); return 1; }
  case M_ROT: { u32 lab = labComb(labComb(a[0].label, a[1].label), a[2].label); if (rt.k == T_INT && a[0].isC() && a[1].isC() && a[2].isC()) { u32 w = rt.w; u64 sh = a[2].lo % w, M = maskW(w); bool left = f->name.find("fshl") != std::string::npos; u64 r; if (sh == 0) r = left ? a[0].lo : a[1].lo; else if (left) r = ((a[0].lo << sh) | (a[1].lo >> (w - sh))) & M; else r = ((a[0].lo << (w - sh)) | (a[1].lo >> sh)) & M; mret = mkC(r, lab); } else mret = topRet(lab); return 1; }
  case M_CNT: { if (rt.k != T_INT) { mret = topRet(a[0].label); return 1; } if (a[0].isC()) { u64 v = a[0].lo; u64 r = pre(f->name, "llvm.ctpop") ? __builtin_popcountll(v) : pre(f->name, "llvm.ctlz") ? (v ? __builtin_clzll(v) - (64 - rt.w) : rt.w) : (v ? __builtin_ctzll(v) : rt.w); mret = mkC(r, a[0].label); } else mret = mkRange(0, rt.w, a[0].label); return 1; }
  case M_ABS: mret = a[0].isC() && a[0].lo <= (maskW(rt.w) >> 1) ? a[0] : topRet(a[0].label); return 1;
  case M_MINMAX: { u32 lab = labComb(a[0].label, a[1].label); if (rt.k != T_INT) { mret = topRet(lab); return 1; } V x = a[0], y = a[1]; if (x.ext) norm(s, x, rt.w); if (y.ext) norm(s, y, rt.w); bool mn = f->name.find("min") != std::string::npos; bool sg = pre(f->name, "llvm.s"); u64 H = maskW(rt.w) >> 1; if (sg && (x.hi > H || y.hi > H)) { mret = topRet(lab); return 1; } mret = mn ? mkRange(std::min(x.lo, y.lo), std::min(x.hi, y.hi), lab) : mkRange(std::max(x.lo, y.lo), std::max(x.hi, y.hi), lab); return 1; }
  case M_OVF: { unsigned op = f->name.find("add") != std::string::npos ? Instruction::Add : f->name.find("sub") != std::string::npos ? Instruction::Sub : Instruction::Mul; u32 w = site->argTy[0].w; V x = a[0], y = a[1]; if (x.ext) norm(s, x, w); if (y.ext) norm(s, y, w); V r = bin(s, op, w, x, y); u32 lab = labComb(x.label, y.label); V o = mkRange(0, 1, lab); u64 M = maskW(w); bool un = f->name.find("llvm.u") == 0; if (un) { unsigned __int128 lo, hi; if (op == Instruction::Add) { lo = (unsigned __int128)x.lo + y.lo; hi = (unsigned __int128)x.hi + y.hi; if (hi <= M) o = mkC(0, lab); else if (lo > M) o = mkC(1, lab); } else if (op == Instruction::Mul) { hi = (unsigned __int128)x.hi * y.hi; lo = (unsigned __int128)x.lo * y.lo; if (hi <= M) o = mkC(0, lab); else if (lo > M) o = mkC(1, lab); } else { if (x.lo >= y.hi) o = mkC(0, lab); else if (x.hi < y.lo) o = mkC(1, lab); } } V g; g.k = K_AGG; gAggs.push_back({r, o}); g.obj = gAggs.size() - 1; g.label = lab; mret = g; return 1; }
  case M_LLVM: { if (!muted) externals.insert(f->name); u32 l = 0; for (auto& v : a) { l = labComb(l, v.label); if (v.k == K_PTR) report("undecided-intrinsic", f->name); } mret = topRet(l); return 1; }
  // ---- sponge API
  case M_KINIT: case M_K4INIT: { bool x4 = m == M_K4INIT; u64 k; u64 sz = structSize(*this, x4 ? "struct.Keccak_HashInstancetimes4" : "struct.Keccak_HashInstance", x4 ? 832 : 224); mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; }
      writeFresh(s, a[0], sz, 0, fresh(sz), "hash context"); HCtx h0; h0.rate = a[1].isC() ? (u32)a[1].lo : 0; h0.suffix = a[4].isC() ? (u32)a[4].lo : 0; u32 cap = a[2].isC() ? (u32)a[2].lo : 0; if (h0.rate + cap != 1600) report("hash-misuse", "rate and capacity do not add up to 1600"); if (!a[3].isC() || a[3].lo != 0) report("undecided-hash", "fixed output length");
      for (u32 l = 0; l < (x4 ? 4u : 1u); l++) { HCtx* n = new HCtx(h0); n->alts.push_back(Ref<Transcript>(new Transcript)); bool found = false; for (auto& h : s.hctx) if (h.first == (k | l)) { h.second = Ref<HCtx>(n); found = true; break; } if (!found) s.hctx.push_back({k | l, Ref<HCtx>(n)}); }
      if (!muted) counters["hash_init"]++; return 1; }
  case M_KUPD: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } V n = a[2]; if (n.ext) norm(s, n, 64); if (n.isC() && (n.lo & 7)) report("hash-misuse", "absorb of a partial byte"); if (n.isC() && n.lo == 0) { if (!hctxMut(s, k)) report("hash-misuse", "update of an uninitialised hash context"); return 1; }
      V bytes = bin(s, Instruction::LShr, 64, a[2], mkC(3)); 
      // len<<3 on 64 bit wraps for lengths >= 2^61: exclude by the symbol range
      absorb(s, k, a[1], bytes); if (!muted) counters["hash_update"]++; return 1; }
  case M_K4UPD: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } V bytes = bin(s, Instruction::LShr, 64, a[2], mkC(3)); Ty t; t.k = T_PTR; t.w = 64; t.bytes = 8; for (u32 l = 0; l < 4; l++) { V q = a[1]; q.lo += 8 * l; q.hi += 8 * l; V p = loadV(s, q, t); absorb(s, k | l, p, bytes); } if (!muted) counters["hash_update"]++; return 1; }
  case M_KFIN: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } hashFinal(s, k); return 1; }
  case M_K4FIN: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } for (u32 l = 0; l < 4; l++) hashFinal(s, k | l); return 1; }
  case M_KSQ: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } hashSqueeze(s, k, a[1], a[2]); return 1; }
  case M_K4SQ: { u64 k; mret = mkC(0); if (!ctxKey(*this, a[0], k)) { report("undecided-hash", "hash context not resolved"); return 1; } Ty t; t.k = T_PTR; t.w = 64; t.bytes = 8; V pp[4]; for (u32 l = 0; l < 4; l++) { V q = a[1]; q.lo += 8 * l; q.hi += 8 * l; pp[l] = loadV(s, q, t); } for (u32 l = 0; l < 4; l++) hashSqueeze(s, k | l, pp[l], a[2]); return 1; }
  // ---- entropy
  case M_GETRANDOM: { V n = a[1]; if (n.ext) norm(s, n, 64); if (!n.isC()) { report("undecided-rng", "getrandom length"); json::Object e; e["ev"] = "rng-undecided"; emit(s, std::move(e)); mret = mkTop(64, 0); return 1; } counters["getrandom"]++;
      { State st = s; u32 base = fresh(n.lo); if (n.lo) ids.push_back({base, (u32)n.lo, IDK_RNG, (u32)counters["rngcalls"]++, 0}); Cur t; t.st = st; writeFresh(t.st, a[0], n.lo, labelAtom(atomRng), base, "getrandom buffer"); json::Object e; e["ev"] = "getrandom"; e["out"] = "full"; e["n"] = (i64)n.lo; emit(t.st, std::move(e)); addOut(t.st, mkC(n.lo)); }
      int bad = count(s, "\"fail\"") + count(s, "\"short\"");
      if (bad >= 2 || (count(s, "\"getrandom\"") >= 3 && !(s.ev.p && (s.ev.p->json.find("\"fail\"") != std::string::npos || s.ev.p->json.find("\"short\"") != std::string::npos))) || cfg.getBoolean("rngOk").value_or(false)) return 2;   // at most two refused or incomplete deliveries per path
      { State st = s; json::Object e; e["ev"] = "getrandom"; e["out"] = "fail"; taintFail(st, a[0], n); emit(st, std::move(e)); addOut(st, mkC(~0ull)); }
      for (u64 k = 0; k < n.lo; k++) { if (bad ? k + 1 != n.lo : !(k < 2 || k == 7 || k == 8 || k == 15 || k == 16 || k == n.lo / 2 || k + 1 == n.lo)) continue; State st = s; taintFail(st, a[0], n); if (k) { u32 base = fresh(k); ids.push_back({base, (u32)k, IDK_RNG, (u32)counters["rngcalls"]++, 0}); writeFresh(st, a[0], k, labelAtom(atomRng), base, "getrandom buffer"); } json::Object e; e["ev"] = "getrandom"; e["out"] = "short"; e["n"] = (i64)k; emit(st, std::move(e)); addOut(st, mkC(k)); }
      return 2; }
  case M_ARC4: { V n = a[1]; if (!n.isC()) { report("undecided-rng", "arc4random_buf length"); json::Object e; e["ev"] = "rng-undecided"; emit(s, std::move(e)); return 1; } u32 base = fresh(n.lo); ids.push_back({base, (u32)n.lo, IDK_RNG, (u32)counters["rngcalls"]++, 0}); writeFresh(s, a[0], n.lo, labelAtom(atomRng), base, "arc4random_buf buffer"); json::Object e; e["ev"] = "arc4random"; e["n"] = (i64)n.lo; emit(s, std::move(e)); return 1; }
  case M_OPEN: { if (count(s, "\"open\"") >= 2) { mret = mkC(7); return 1; } { State st = s; json::Object e; e["ev"] = "open"; e["out"] = "ok"; emit(st, std::move(e)); addOut(st, mkC(7)); } { State st = s; json::Object e; e["ev"] = "open"; e["out"] = "fail"; emit(st, std::move(e)); addOut(st, mkC(0xffffffffu)); } return 2; }
  case M_CLOSE: { json::Object e; e["ev"] = "close"; emit(s, std::move(e)); mret = mkC(0); return 1; }
  case M_FCNTL: mret = mkRange(0, 0x7fffffff, 0); return 1;
  case M_IOCTL: { if (a.size() > 2 && a[2].k == K_PTR) { Ty t; t.k = T_INT; t.w = 32; t.bytes = 4; storeV(s, a[2], mkTop(32, 0), t, false); } { State st = s; json::Object e; e["ev"] = "ioctl"; e["out"] = "ok"; emit(st, std::move(e)); addOut(st, mkC(0)); } { State st = s; json::Object e; e["ev"] = "ioctl"; e["out"] = "fail"; emit(st, std::move(e)); addOut(st, mkC(0xffffffffu)); } return 2; }
  case M_READ: { V n = a[2]; if (n.ext) norm(s, n, 64); bool more = count(s, "\"read\"") < 2;   // at most two incomplete reads per path
      if (n.isC()) { { State st = s; u32 base = fresh(n.lo); ids.push_back({base, (u32)n.lo, IDK_RNG, (u32)counters["rngcalls"]++, 0}); writeFresh(st, a[1], n.lo, labelAtom(atomRng), base, "read buffer"); json::Object e; e["ev"] = "read"; e["out"] = "full"; e["n"] = (i64)n.lo; emit(st, std::move(e)); addOut(st, mkC(n.lo)); }
        for (u64 k = 1; more && k < n.lo && k < 4; k++) { State st = s; u32 base = fresh(k); ids.push_back({base, (u32)k, IDK_RNG, (u32)counters["rngcalls"]++, 0}); writeFresh(st, a[1], k, labelAtom(atomRng), base, "read buffer"); json::Object e; e["ev"] = "read"; e["out"] = "short"; e["n"] = (i64)k; emit(st, std::move(e)); addOut(st, mkC(k)); } }
      if (more) { State st = s; json::Object e; e["ev"] = "read"; e["out"] = "fail"; taintFail(st, a[1], n); emit(st, std::move(e)); addOut(st, mkC(~0ull)); } return 2; }
  // ---- EVP
  case M_EVPCIPH: { V v; v.k = K_FN; v.obj = f->id; mret = v; return 1; }
  case M_EVPNEW: { ObjInfo inf; inf.kind = O_CIPHER; inf.size = 64; inf.name = "cipher context allocated in " + here(); u32 id = newObj(s, inf); cipherOf[id] = ciphers.size(); ciphers.push_back(CipherCtx()); if (!muted) { allocSites.insert(here()); counters["cipher_ctx"]++; } mret = mkPtr(id, 0); return 1; }
  case M_EVPFREE: freeModel(c, a[0], "EVP_CIPHER_CTX_free"); return 1;
  case M_EVPSTATUS: mret = mkC(1); return 1;
  case M_EVPINIT: { mret = evpFail ? mkRange(0, 1, 0) : mkC(1); if (a[0].k != K_PTR || !cipherOf.count(a[0].obj)) { report("undecided-cipher", "cipher context not resolved"); return 1; } i64 lo, hi; Obj* o; if (!resolve(s, a[0], 1, false, lo, hi, o, "cipher context")) return 1; CipherCtx& x = ciphers[cipherOf[a[0].obj]]; bool four = f->name == "EVP_EncryptInit"; V ci = a[1], key = four ? a[2] : a[3], iv = four ? a[3] : a[4];
      if (ci.k == K_FN) x.mode = P.fnv[ci.obj]->name; else if (!(ci.k == K_PTR && ci.obj == 0)) { x.mode = "?"; }
      x.keybytes = x.mode.find("_256_") != std::string::npos ? 32 : x.mode.find("_192_") != std::string::npos ? 24 : 16; u32 l = 0;
      auto nul = [](const V& v) { return v.k == K_PTR && v.obj == 0; };
      if (!nul(key)) { x.key = readSegs(s, key, mkC(x.keybytes), "cipher key", l); x.keyLabel = l; initUse(l, "cipher key"); } if (!nul(iv)) { x.iv = readSegs(s, iv, mkC(16), "cipher iv", l); initUse(l, "cipher iv"); x.keyLabel = labComb(x.keyLabel, l); }
      x.init = true; o = mutObj(s, a[0].obj); o->cells.clear(); V v = mkC(1); v.pad = 8; o->cells.push_back({0, v}); return 1; }
  case M_EVPUPD: { mret = evpFail ? mkRange(0, 1, 0) : mkC(1); if (a[0].k != K_PTR || !cipherOf.count(a[0].obj)) { report("undecided-cipher", "cipher context not resolved"); return 1; } i64 lo, hi; Obj* o; if (!resolve(s, a[0], 1, false, lo, hi, o, "cipher context")) return 1; u32 ci = cipherOf[a[0].obj]; if (o->cells.empty()) { report("cipher-misuse", "update of a cipher context that is not initialised"); return 1; }
      V pos = o->cells[0].second; V n = a[4]; if (!n.isC() || !pos.isC()) { report("undecided-cipher", "cipher length not resolved"); if (n.k == K_INT) { i64 x, y; Obj* q; V nn = n; if (resolve(s, a[1], 0, true, x, y, q, "cipher output")) { u32 id = q->id; q = mutObj(s, id); if ((u64)y + nn.hi > q->size) report((nn.wide & W_HI) ? "undecided-bounds" : "oob", "cipher output exceeds " + objName(id)); weakRange(q, std::max<i64>(0, x), std::min<i64>(q->size, y + nn.hi), 0, 255, labComb(ciphers[ci].keyLabel, labelAtom(atomPrg))); } } Ty t; t.k = T_INT; t.w = 32; t.bytes = 4; storeV(s, a[2], mkTop(32, 0), t, false); return 1; }
      u32 l = 0; std::vector<Seg> in = readSegs(s, a[3], n, "cipher input", l); bool zero = true; for (auto& g : in) if (g.k != 1 || g.val) zero = false; u64 p = pos.lo - 1; u32 lab = labComb(labComb(ciphers[ci].keyLabel, l), labelAtom(atomPrg));
      if (terms && zero) { K128 k; for (char ch : ciphers[ci].mode) k.a = k.a * 131 + (u8)ch; std::vector<u32> key; bool ok = termIn(ciphers[ci].key, k, &key); ok = termIn(ciphers[ci].iv, k, &key) && ok; if (ok) { V d = a[1]; for (u64 q = 0; q < n.lo;) { u64 at = p + q, blk = at / 16, in16 = at % 16, m = std::min<u64>(16 - in16, n.lo - q); K128 kb = k; kb.a = kb.a * 0x9E3779B97F4A7C15ull + blk; kb.b ^= (blk + 1) * 0xC2B2AE3D27D4EB4Full; u32 b = oracleOut(kb, 16, IDK_KS, ci, (u32)(blk * 16), true, key); writeFresh(s, d, m, lab, b + (u32)in16, "cipher output"); d.lo += m; d.hi += m; q += m; }
          o = mutObj(s, a[0].obj); o->cells[0].second.lo = o->cells[0].second.hi = pos.lo + n.lo; Ty t; t.k = T_INT; t.w = 32; t.bytes = 4; storeV(s, a[2], mkC(n.lo), t, false); return 1; } }
      u32 base = fresh(n.lo); if (n.lo) ids.push_back({base, (u32)n.lo, (u8)(zero ? IDK_KS : 0), ci, (u32)p}); writeFresh(s, a[1], n.lo, lab, base, "cipher output"); 
      o = mutObj(s, a[0].obj); o->cells[0].second.lo = o->cells[0].second.hi = pos.lo + n.lo; Ty t; t.k = T_INT; t.w = 32; t.bytes = 4; storeV(s, a[2], mkC(n.lo), t, false); return 1; }
  case M_EVPFIN: { mret = evpFail ? mkRange(0, 1, 0) : mkC(1); Ty t; t.k = T_INT; t.w = 32; t.bytes = 4; storeV(s, a[2], mkC(0), t, false); return 1; }
  case M_STUB: break;
  default: return 0; }
  // ------------------------------------------------------------------ scenario stubs
  const json::Object& sc = *stubOf[f->id]; std::string kind = sc.getString("kind").value_or("").str();
  if (kind == "prg") { V lv = a[3], n = a[4]; mret = V(); if (lv.ext) norm(s, lv, 32); if (n.ext) norm(s, n, 64); checkUse(lv, "length"); checkUse(n, "length"); if (!lv.isC() || !n.isC()) { report("undecided-prg", "prg parameters not resolved"); return 1; } u32 kb = lv.lo == 256 ? 32 : lv.lo == 192 ? 24 : 16; u32 l1 = 0, l2 = 0; PrgRec r; r.key = readSegs(s, a[0], mkC(kb), "prg key", l1); r.iv = readSegs(s, a[1], mkC(16), "prg iv", l2); if (labUninit(l1) || labUninit(l2)) checkUse(mkTop(8, labelAtom(A_UNINIT)), "prg input"); r.keyLabel = l1; r.ivLabel = l2; r.outlen = (u32)n.lo; r.keybytes = kb; r.muted = muted > 0; r.outBase = n.lo ? fresh(n.lo) : 0; r.where = muted ? "" : here(); if (n.lo) ids.push_back({r.outBase, (u32)n.lo, IDK_PRG, (u32)prgs.size(), 0}); u32 lab = labComb(labComb(l1, l2), labelAtom(atomPrg)); if (gLabels[l1].must.test(atomPrg)) lab = labComb(lab, labelAtom(atomIndex("PRG2"))); LabelBits lb = gLabels[lab]; if (lb.may.test(A_UNINIT)) { lb.may.clr(A_UNINIT); lab = internLabel(lb); } writeFresh(s, a[2], n.lo, lab, r.outBase, "prg output"); prgs.push_back(std::move(r)); return 1; }
  if (kind == "randbytes") { V n = a[1]; if (!n.isC()) { report("undecided-rng", "rand_bytes length"); mret = mkTop(32, 0); return 1; } u32 k = (u32)counters["rngcalls"]++; bool okOnly = sc.getBoolean("ok").value_or(false);
    { State st = s; u32 base = fresh(n.lo); ids.push_back({base, (u32)n.lo, IDK_RNG, k, 0}); writeFresh(st, a[0], n.lo, labelAtom(atomRng), base, "rand_bytes buffer"); json::Object e; e["ev"] = "rand_bytes"; e["out"] = "ok"; e["n"] = (i64)n.lo; e["call"] = (i64)k; e["dst"] = ptrj(a[0]); emit(st, std::move(e)); addOut(st, mkC(0)); }
    if (!okOnly) { State st = s; json::Object e; e["ev"] = "rand_bytes"; e["out"] = "fail"; taintFail(st, a[0], n); e["n"] = (i64)n.lo; e["call"] = (i64)k; emit(st, std::move(e)); addOut(st, mkC(0xffffffffu)); } return 2; }
  if (kind == "owf") { i64 kb = sc.getInteger("key").value_or(16), ib = sc.getInteger("in").value_or(16), ob = sc.getInteger("out").value_or(16); u32 l1, l2; auto k = readSegs(s, a[0], mkC(kb), "owf key", l1); auto in = readSegs(s, a[1], mkC(ib), "owf input", l2); bool un = labUninit(l1) || labUninit(l2); if (un) checkUse(mkTop(8, labelAtom(A_UNINIT)), "owf input"); u32 rec = (u32)counters["owfcalls"]++; u32 base = fresh(ob); ids.push_back({base, (u32)ob, IDK_OWF, rec, 0}); u32 ol = labelAtom(atomOwf); { int fa = atomIndex("RNGFAIL"); if (gLabels[l1].may.test(fa) || gLabels[l2].may.test(fa)) ol = labComb(ol, labelAtom(fa)); } writeFresh(s, a[2], ob, ol, base, "owf output"); auto evt = [&](State& st, int ret) { json::Object e; e["ev"] = "owf"; e["fn"] = f->name; e["key"] = segStr(k); e["in"] = segStr(in); e["rec"] = (i64)rec; e["ret"] = ret; e["uninit"] = un; emit(st, std::move(e)); }; V t = mkC(1), z = mkC(0); std::string oc = sc.getString("outcomes").value_or("both").str();
    if (oc == "false") { writeFresh(s, a[2], ob, labComb(ol, labelAtom(atomIndex("OWFBAD"))), base, "owf output"); mret = z; return 1; }
    if (oc == "true" || (disjunctive && count(s, "\"owf\"") >= 3)) { evt(s, 1); mret = t; return 1; } { State st = s; evt(st, 1); addOut(st, t); } { State st = s; writeFresh(st, a[2], ob, labComb(ol, labelAtom(atomIndex("OWFBAD"))), base, "owf output"); evt(st, 0); addOut(st, z); } return 2; }
  if (kind == "sign" || kind == "verify") { json::Object e; e["ev"] = kind; json::Array ar; for (auto& v : a) { if (v.k == K_PTR || v.k == K_TOPPTR) ar.push_back(ptrj(v)); else ar.push_back(linj(v)); } e["args"] = std::move(ar);
    // identities of small inputs
    json::Array an; i64 hb = sc.getInteger("half").value_or(16); std::vector<int> which = kind == "sign" ? std::vector<int>{3, 4, 5} : std::vector<int>{3, 4}; for (int w : which) { u32 l; V p = a[w]; bool nul = p.k == K_PTR && p.obj == 0; an.push_back(nul ? std::string("null") : segStr(readSegs(s, p, mkC(w == 3 && kind == "sign" ? sc.getInteger("key").value_or(hb) : hb), "argument", l))); if (!nul && labUninit(l)) checkUse(mkTop(8, labelAtom(A_UNINIT)), "argument of the operation"); } e["bytes"] = std::move(an);
    if (kind == "sign") { bool rhoFail = false; i64 sz = sc.getInteger("size").value_or(0); V rh = a[6], rl = a[7]; if (rh.k == K_PTR && rh.obj && rl.isC() && rl.lo) { u32 l; e["rho"] = segStr(readSegs(s, rh, rl, "rho", l)); e["rhoUninit"] = labUninit(l); if (labUninit(l)) checkUse(mkTop(8, labelAtom(A_UNINIT)), "signing randomness"); rhoFail = gLabels[l].may.test(atomIndex("RNGFAIL")); } else e["rho"] = "-";
      // params structure
      u32 base = fresh(sz); ids.push_back({base, (u32)sz, IDK_SIGOUT, 0, 0}); writeFresh(s, a[0], sz, rhoFail ? labComb(labelAtom(atomSig), labelAtom(atomIndex("RNGFAIL"))) : labelAtom(atomSig), base, "signature"); emit(s, std::move(e)); mret = V(); return 1; }
    e["ret"] = 0; json::Object e2 = e; e2["ret"] = -1; { State st = s; emit(st, std::move(e)); addOut(st, mkC(0)); } { State st = s; emit(st, std::move(e2)); addOut(st, mkC(0xffffffffu)); } return 2; }
  if (kind == "call") { // contract stub of an API function: records arguments, enumerates results
    json::Object e; e["ev"] = "call"; e["fn"] = f->name; json::Array ar; for (auto& v : a) { if (v.k == K_PTR || v.k == K_TOPPTR) ar.push_back(ptrj(v)); else ar.push_back(linj(v)); } e["args"] = std::move(ar);
    auto* rets = sc.getArray("rets"); const json::Array* wr = sc.getArray("writes");
    if (wr) for (auto& w : *wr) { auto* wo = w.getAsObject(); if (!wo->getBoolean("size_t").value_or(false)) continue; int ai = (int)*wo->getInteger("arg"); Ty t; t.k = T_INT; t.w = 64; t.bytes = 8; e["value" + std::to_string(ai)] = linj(loadV(s, a[ai], t)); }
    for (auto& rv : *rets) { State st = s; i64 r = *rv.getAsInteger(); if (wr && (r == 0 || sc.getBoolean("writesOnFail").value_or(false))) for (auto& w : *wr) { auto* wo = w.getAsObject(); int ai = (int)*wo->getInteger("arg"); i64 n = wo->getInteger("n").value_or(0); if (wo->getBoolean("size_t").value_or(false)) { Ty t; t.k = T_INT; t.w = 64; t.bytes = 8; storeV(st, a[ai], r == 0 ? mkC((u64)n) : mkTop(64, 0), t, false); continue; } u32 base = fresh(n); ids.push_back({base, (u32)n, IDK_SIGOUT, (u32)counters["callout"]++, 0}); writeFresh(st, a[ai], n, labelAtom(atomSig), base, "output of stub"); }
      json::Object e2 = e; e2["ret"] = r; emit(st, std::move(e2)); addOut(st, mkC((u64)r & maskW(rt.w ? rt.w : 32))); }
    return 2; }
  if (kind == "bcmp") { V r = memcmpModel(s, a[0], a[1], a[2], false, 0); r.label = 0; if (logEv) { json::Object e; e["ev"] = "bcmp"; e["a"] = ptrj(a[0]); e["b"] = ptrj(a[1]); e["n"] = linj(a[2]); emit(s, std::move(e)); } mret = r; return 1; }
  if (kind == "sbox") { V x = a[0]; if (zfAtom >= 0 && x.label && gLabels[x.label].may.test(zfAtom)) { LabelBits b = gLabels[x.label]; b.may.w[zfAtom >> 6] &= ~(1ull << (zfAtom & 63)); b.must.w[zfAtom >> 6] &= ~(1ull << (zfAtom & 63)); x.label = internLabel(b); } SboxRec r; r.id = x.idw == 1 ? x.id : 0; r.label = x.label; r.lo = x.lo; r.hi = x.hi; r.where = muted ? "" : here(); r.fresh = fresh(1); V y = mkRange(0, 255, x.label); y.id = r.fresh; y.idw = 1; if (!muted) { sboxes.push_back(r); } mret = y; return 1; }
  if (kind == "aesenc") { AesRec r; r.where = here(); r.words = a[2].isC() ? (u32)a[2].lo : 0; r.rounds = a[3].isC() ? (u32)a[3].lo : 0; r.muted = muted > 0; Ty t; t.k = T_INT; t.w = 8; t.bytes = 1; u32 lab = 0; for (u32 i = 0; i < r.words * 4; i++) { V q = a[1]; q.lo += i; q.hi += i; V v = loadV(s, q, t); r.in.push_back(v); lab = labComb(lab, v.label); } u32 base = fresh(r.words * 4); ids.push_back({base, r.words * 4, IDK_KS, (u32)aesRecs.size(), 0}); writeFresh(s, a[1], r.words * 4, labComb(lab, labelAtom(atomPrg)), base, "cipher output"); aesRecs.push_back(r); mret = mkTop(32, 0); return 1; }
  if (kind == "fastabsorb") { // multi-block absorption: block k is added at the start of the state; the permutation is not modelled
    V lc = a[1], n = a[3]; if (lc.ext) norm(s, lc, 32); if (n.ext) norm(s, n, 64); if (!lc.isC() || !n.isC() || !lc.lo || lc.lo > 25 || n.lo > (1u << 20)) { report("undecided-stub", "block absorption lengths not resolved"); mret = topRet(0); return 1; }
    u64 r = lc.lo * 8, done = n.lo - n.lo % r; Ty t; t.k = T_INT; t.w = 8; t.bytes = 1;
    for (u64 i = 0; i < done; i++) { V q = a[2]; q.lo += i; q.hi += i; V x = loadV(s, q, t); V d = a[0]; d.lo += i % r; d.hi += i % r; V y = loadV(s, d, t); storeV(s, d, mkTop(8, labComb(x.label, y.label)), t, false); if (i % r == r - 1) { json::Object e; e["ev"] = "call"; e["fn"] = f->name; emit(s, std::move(e)); } }
    mret = mkC(done); return 1; }
  if (kind == "nop") { mret = topRet(0); return 1; }
  report("undecided-stub", "unknown stub kind " + kind); mret = topRet(0); return 1; }
