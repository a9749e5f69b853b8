#include "interp.h"
using namespace llvm;
std::vector<ObjInfo> gObjInfo(1);

u32 Interp::newObj(State& s, ObjInfo inf) { u32 id = gObjInfo.size(); if (id > 60000000) { aborted = true; abortMsg = "too many objects"; }
  Obj* o = new Obj; o->id = id; o->size = inf.size; o->dlo = inf.dlo; o->dhi = inf.dhi; o->dlabel = inf.dlabel; o->dids = inf.dids; o->version = ver++; if (inf.size <= (64u << 20)) o->pages.resize((inf.size + PG - 1) / PG);
  gObjInfo.push_back(std::move(inf)); s.objs.slot(id) = Ref<Obj>(o); return id; }
Obj* Interp::mutObj(State& s, u32 id) { Obj* o = s.objs.mut(id); o->version = ver++; return o; }

void Interp::getByte(const Obj* o, u64 off, u8& lo, u8& hi, u32& lab, u32& id) const {
  const Page* p = o->pages[off / PG].p; u32 i = off % PG;
  if (p) { lo = p->lo[i]; hi = p->hi[i]; lab = p->label[i]; id = p->id[i]; } else { lo = o->dlo; hi = o->dhi; lab = o->dlabel; id = o->dids ? o->dids + off : 0; } if (gCondRead) lab = labRead(lab); }
Page* Interp::page(Obj* o, u64 off) { Ref<Page>& r = o->pages[off / PG]; if (!r) { Page* p = new Page; memset(p->lo, o->dlo, PG); memset(p->hi, o->dhi, PG); u64 b = off / PG * PG; for (int i = 0; i < PG; i++) { p->label[i] = o->dlabel; p->id[i] = o->dids ? o->dids + b + i : 0; } r = Ref<Page>(p); return p; } return r.mut(); }
void Interp::putByte(Obj* o, u64 off, u8 lo, u8 hi, u32 lab, u32 id) { Page* p = page(o, off); u32 i = off % PG; p->lo[i] = lo; p->hi[i] = hi; p->label[i] = lab; p->id[i] = id; }
void Interp::killCells(Obj* o, u64 off, u64 n) { auto& c = o->cells; if (c.empty()) return;
  size_t w = 0; bool any = false; 
  // cells are sorted: locate quickly
  auto it = std::lower_bound(c.begin(), c.end(), off >= 8 ? (u32)(off - 7) : 0u, [](const std::pair<u32, V>& x, u32 v) { return x.first < v; });
  for (; it != c.end() && it->first < off + n; ++it) if (it->first + it->second.pad > off) { any = true; break; }
  if (!any) return;
  std::vector<std::pair<u32, V>> out; out.reserve(c.size());
  for (auto& x : c) { if (x.first < off + n && x.first + x.second.pad > off) { // partially overwritten pointer cells leave unknown bytes
        for (u64 b = x.first; b < x.first + x.second.pad; b++) if (b < off || b >= off + n) putByte(o, b, 0, 255, x.second.label, 0); } else out.push_back(x); }
  (void)w; c.swap(out); }

void Interp::summary(const Obj* o, i64 lo, i64 hiEx, u8& blo, u8& bhi, u32& lab) {
  struct K { u32 id; u64 ver; i64 a, b; u8 l, h; u32 lab; bool v = false; }; static std::vector<K> cache(1024);
  K& k = cache[((u64)o->id * 31 + o->version * 7 + lo * 13 + hiEx) & 1023];
  if (k.v && k.id == o->id && k.ver == o->version && k.a == lo && k.b == hiEx) { blo = k.l; bhi = k.h; lab = k.lab; return; }
  bool first = true; u32 lastLab = ~0u; u8 L = 255, H = 0;
  for (i64 off = lo; off < hiEx;) { const Page* p = o->pages[off / PG].p; u64 e = std::min<i64>((off / PG + 1) * PG, hiEx);
    if (!p) { if (first) lab = o->dlabel; else lab = labJoin(lab, o->dlabel); first = false; L = std::min(L, o->dlo); H = std::max(H, o->dhi); lastLab = ~0u; }
    else for (i64 x = off; x < (i64)e; x++) { u32 i = x % PG; if (p->label[i] != lastLab) { lastLab = p->label[i]; if (first) lab = lastLab; else lab = labJoin(lab, lastLab); first = false; } if (p->lo[i] < L) L = p->lo[i]; if (p->hi[i] > H) H = p->hi[i]; }
    off = e; }
  for (auto& c : o->cells) if ((i64)c.first < hiEx && (i64)(c.first + c.second.pad) > lo) { lab = first ? c.second.label : labJoin(lab, c.second.label); first = false; L = 0; H = 255; }
  lab = labImprecise(lab); blo = L; bhi = H; k.id = o->id; k.ver = o->version; k.a = lo; k.b = hiEx; k.l = L; k.h = H; k.lab = lab; k.v = true; }
void Interp::weakRange(Obj* o, i64 lo, i64 hiEx, u8 blo, u8 bhi, u32 lab, bool maybe) { // maybe: known offset, but possibly not written at all
  o->weakw = true;
  auto labWeak = [&](u32 x, u32 y) { u32 r = ::labWeak(x, y); if (maybe && labUninit(x)) { LabelBits b = gLabels[r]; b.may.set(A_MAYUN); r = internLabel(b); } return r; };
  // structured cells in the range are lost
  bool c = false; for (auto& x : o->cells) if ((i64)x.first < hiEx && (i64)(x.first + x.second.pad) > lo) c = true;
  if (c) killCells(o, lo, hiEx - lo);
  u32 lo_ = ~0u, lr = 0;
  for (i64 off = lo; off < hiEx;) { i64 e = std::min<i64>((off / PG + 1) * PG, hiEx); const Page* cp = o->pages[off / PG].p;
    // skip pages that would not change
    bool ch = !cp; if (cp) for (i64 x = off; x < e; x++) { u32 i = x % PG; if (cp->label[i] != lo_) { lo_ = cp->label[i]; lr = labWeak(lo_, lab); } if (lr != cp->label[i] || cp->id[i] || blo < cp->lo[i] || bhi > cp->hi[i]) { ch = true; break; } }
    if (ch) { Page* p = page(o, off); for (i64 x = off; x < e; x++) { u32 i = x % PG; if (p->label[i] != lo_) { lo_ = p->label[i]; lr = labWeak(lo_, lab); } p->label[i] = lr; p->id[i] = 0; if (blo < p->lo[i]) p->lo[i] = blo; if (bhi > p->hi[i]) p->hi[i] = bhi; } }
    off = e; } }

// Resolve a pointer to an object and an offset interval; reports violations.  lo/hi: offsets of the first byte.
// writes behind the documented end of an output object
void Interp::slack(const ObjInfo& inf, i64 lo, i64 hi, u64 nlo, u64 nhi, bool wide, const char* what) {
  if (!inf.limit || !nhi || hi < 0 || (unsigned __int128)(u64)hi + nhi <= inf.limit) return;
  bool defin = lo >= 0 && (unsigned __int128)(u64)lo + (nlo ? nlo : 1) > inf.limit;
  report(defin || !wide ? "write-slack" : "undecided-slack", std::string(what) + " reaches behind byte " + std::to_string(inf.limit) + " of " + inf.name); }

bool Interp::resolve(State& s, const V& p0, u64 n, bool write, i64& lo, i64& hi, Obj*& o, const char* what) {
  accesses++; if (!muted && curInst && curInst->I) memSites.insert(curInst->I);
  V p = p0;
  if (p.label) checkUse(p, "address");
  if (p.k == K_TOPPTR) { report("undecided-pointer", std::string(what) + " through an unresolved pointer"); return false; }
  if (p.k == K_INT) { if (p.lo == p.hi && p.lo == 0) { if (n) report("null", std::string(what) + " through a null pointer"); } else report("undecided-pointer", std::string(what) + " through an integer"); return false; }
  if (p.k != K_PTR) { report("undecided-pointer", std::string(what) + " through a non-data pointer"); return false; }
  if (p.obj == 0) { if (n) report("null", std::string(what) + " through a null pointer"); return false; }
  o = s.objs.get(p.obj);
  if (!o) { report("uaf", std::string(what) + " of an object whose lifetime has ended: " + gObjInfo[p.obj].name); return false; }
  const ObjInfo& inf = gObjInfo[p.obj];
  if (o->st == S_FREED) { report("uaf", std::string(what) + " after free of " + inf.name); return false; }
  if (o->st == S_MAYBE) { report("uaf", std::string(what) + " of memory released on some path: " + inf.name); return false; }
  if (p.ext) norm(s, p, 64);
  lo = (i64)p.lo; hi = (i64)p.hi;
  if (write && inf.readonly) { report(inf.kind == O_GLOBAL ? "write-global-const" : "write-input", std::string("write to read-only object ") + inf.name); return false; }
  if (write && inf.kind == O_GLOBAL && !muted) { globalsWritten.insert(inf.name); report("write-global", "write to global object " + inf.name); }
  if (inf.symbolic) { // symbolic size: linear comparison
    const Ext& se = gExts[inf.sizeExt]; Ext pe; if (p.ext && gExts[p.ext].sym) pe = gExts[p.ext]; else if (p.lo == p.hi) { pe.symc = (i64)p.lo; } else { report("undecided-bounds", std::string(what) + " at a non-linear offset of " + inf.name); return true; }
    if (lo < 0) report("oob", std::string(what) + " before the start of " + inf.name);
    bool ok = false, bad = false;
    if (pe.sym == 0 || pe.sym == se.sym) { i64 k = se.symk - (pe.sym ? pe.symk : 0), c = se.symc - pe.symc - (i64)n; auto& r = s.symR[se.sym]; __int128 v1 = (__int128)k * (__int128)r.first + c, v2 = (__int128)k * (__int128)r.second + c; ok = v1 >= 0 && v2 >= 0; bad = !ok; }
    else { __int128 a, b, c, d; symRange(s, pe, a, b); symRange(s, se, c, d); ok = b + (__int128)n <= c; }
    if (bad) report("oob", std::string(what) + " of " + std::to_string(n) + " bytes may exceed the symbolic size of " + inf.name); else if (!ok) report("undecided-bounds", std::string(what) + " relative to " + inf.name);
    return true; }
  if (n == 0) { if (lo < 0) lo = 0; return true; }
  u64 size = o->size;
  if (write && inf.limit) slack(inf, lo, hi, n, n, p.wide & W_HI, what);
  if (lo < 0 || (u64)hi + n > size || hi < 0) {
    bool defin = hi < 0 || (i64)size < lo + (i64)n;
    bool wideBad = (lo < 0 && (p.wide & W_LO)) || (hi + (i64)n > (i64)size && (p.wide & W_HI));
    if (defin || !wideBad) report("oob", std::string(what) + " of " + std::to_string(n) + " bytes at offset [" + std::to_string(lo) + "," + std::to_string(hi) + "] of " + inf.name + " (" + std::to_string(size) + " bytes)");
    else report("undecided-bounds", std::string(what) + " at offset [" + std::to_string(lo) + "," + std::to_string(hi) + "] of " + inf.name + " (" + std::to_string(size) + " bytes)");
    if (lo < 0) lo = 0; if (hi < 0) hi = 0; if ((u64)hi + n > size) hi = (i64)size - (i64)n; if (hi < lo) { if (hi < 0 || n > size) return false; lo = hi; }
    }
  return true; }

V Interp::loadV(State& s, const V& p, const Ty& t) {
  i64 lo, hi; Obj* o; u64 n = t.bytes;
  auto topOf = [&](u32 lab) { V v; if (t.k == T_PTR) return mkTopPtr(lab); if (t.k == T_VEC) { v.k = K_VEC; v.obj = internLanes(std::vector<u32>(t.n, lab)); v.label = lab; return v; } v = mkTop(t.k == T_INT ? t.w : 64, lab); return v; };
  if (!resolve(s, p, n, false, lo, hi, o, "read")) return topOf(0);
  const ObjInfo& inf = gObjInfo[o->id];
  if (inf.symbolic) { return topOf(labComb(labComb(o->dlabel, o->sumLabel), p.label)); }
  u32 pl = p.label;
  auto readAt = [&](u64 off) -> V {
    if (!o->cells.empty()) { auto it = std::lower_bound(o->cells.begin(), o->cells.end(), off >= 8 ? (u32)(off - 7) : 0u, [](const std::pair<u32, V>& x, u32 v) { return x.first < v; });
      for (; it != o->cells.end() && it->first < off + n; ++it) { if (it->first == off && it->second.pad == n && t.k != T_VEC) { V v = it->second; v.pad = 0; if (t.k == T_PTR && v.k == K_INT) { if (v.lo == 0 && v.hi == 0) return mkNull(); return mkTopPtr(v.label); } if (v.ext) norm(s, v, 8 * n); return v; } if (it->first + it->second.pad > off) return topOf(it->second.label); } }
    V v; u32 lab = 0; 
    if (t.k == T_VEC) { u32 eb = t.w / 8; std::vector<u32> lanes(t.n); bool cons = true; u32 id0 = 0; for (u32 l = 0; l < t.n; l++) { u32 ll = 0; for (u32 b = 0; b < eb; b++) { u8 x, y; u32 la, id; getByte(o, off + l * eb + b, x, y, la, id); ll = b ? labComb(ll, la) : la; if (!l && !b) id0 = id; else if (!id0 || id != id0 + l * eb + b) cons = false; } lanes[l] = ll; lab = l ? labComb(lab, ll) : ll; } v.k = K_VEC; v.obj = internLanes(lanes); v.label = lab; v.id = cons ? id0 : 0; v.idw = n; return v; }
    if (n == 1) { u8 x, y; u32 id; getByte(o, off, x, y, lab, id); if (forceId && id == forceId) return mkC(0, labComb(lab, zfLabel)); v.lo = x; v.hi = y; v.label = lab; v.id = id; v.idw = 1; if (t.w < 8 && v.hi > maskW(t.w)) { v.hi = maskW(t.w); v.lo = 0; v.id = 0; } return v; }
    bool cons = true, allC = true; u32 id0 = 0; u64 L = 0, H = 0; bool allZero = true;
    for (u64 b = 0; b < n; b++) { u8 x, y; u32 la, id; getByte(o, off + b, x, y, la, id); if (forceId && id == forceId) { x = y = 0; la = labComb(la, zfLabel); } lab = b ? (la == lab ? lab : labComb(lab, la)) : la; if (!b) id0 = id; else if (!id0 || id != id0 + b) cons = false; if (x != y) allC = false; if (x || y) allZero = false; if (b < 8) { L |= (u64)x << (8 * b); H |= (u64)y << (8 * b); } }
    if (t.k == T_PTR) { if (allC && allZero) return mkNull(); return mkTopPtr(lab); }
    if (t.k == T_INT) { v.lo = L; v.hi = H; (void)allC; if (v.hi > maskW(t.w)) { v.hi = maskW(t.w); v.lo = 0; } v.label = lab; if (cons && id0 && n <= 8) { v.id = id0; v.idw = n; } return v; }
    v.label = lab; v.lo = 0; v.hi = ~0ull; if (cons && id0 && n <= 64) { v.id = id0; v.idw = n; } return v; };
  if (lo == hi) { V v = readAt(lo); if (pl) v.label = labComb(v.label, pl); return v; }
  i64 step = 1; if (p.cm > 1) { step = p.cm; i64 adj = ((i64)p.cr - (lo % (i64)p.cm) + p.cm) % p.cm; lo += adj; }
  if ((hi - lo) / step < 48) { V v; bool first = true; for (i64 x = lo; x <= hi; x += step) { V r = readAt(x); v = first ? r : joinV(v, r, false); first = false; } if (v.k == K_INT) { v.ext = 0; } v.label = labImprecise(v.label); if (pl) v.label = labComb(v.label, pl); return v; }
  u8 bl, bh; u32 lab; summary(o, lo, hi + n, bl, bh, lab); if (pl) lab = labComb(lab, pl);
  if (!o->cells.empty()) return topOf(lab);
  if (t.k == T_INT && n == 1) return mkRange(bl, bh, lab);
  if (t.k == T_INT && bh == 0) return mkC(0, lab);
  return topOf(lab); }

void Interp::storeV(State& s, const V& p, const V& v0, const Ty& t, bool vol) {
  i64 lo, hi; Obj* o; u64 n = t.bytes; V v = v0; if (p.label) v.label = labComb(v.label, 0);
  if (!resolve(s, p, n, true, lo, hi, o, "write")) return;
  const ObjInfo& inf = gObjInfo[o->id]; 
  if (inf.symbolic) { Obj* m = mutObj(s, o->id); m->sumLabel = m->touched ? labJoin(m->sumLabel, v.label) : v.label; m->touched = true; return; }
  o = mutObj(s, o->id); o->touched = true;
  if (t.k == T_AGG) { // store of first class aggregate: spread the label
    u32 lab = v.label; if (v.k == K_AGG) { auto* st = dyn_cast<StructType>(const_cast<llvm::Type*>(t.t)); auto es = gAggs[v.obj]; if (st && lo == hi) { const StructLayout* SL = P.M->getDataLayout().getStructLayout(st); for (unsigned i = 0; i < es.size(); i++) { V q = p; q.lo += SL->getElementOffset(i); q.hi = q.lo; storeV(s, q, es[i], P.ty(st->getElementType(i)), vol); } return; } for (auto& e : es) lab = labComb(lab, e.label); } weakRange(o, lo, hi + n, 0, 255, lab); return; }
  if (lo == hi) {
    killCells(o, lo, n);
    if (v.k == K_PTR || v.k == K_FN || v.k == K_TOPPTR || v.k == K_AGG || (v.k == K_INT && v.ext) || (v.k == K_INT && t.k == T_INT && n > 1 && v.lo != v.hi && !v.id && (v.hi < maskW(t.w) || v.lo > 0 || v.cm > 1))) {
      if (!(v.k == K_PTR && v.obj == 0 && v.lo == 0 && v.hi == 0)) { v.pad = n; auto it = std::lower_bound(o->cells.begin(), o->cells.end(), (u32)lo, [](const std::pair<u32, V>& x, u32 q) { return x.first < q; }); o->cells.insert(it, {(u32)lo, v}); return; }
      v = mkC(0, v.label); }
    u32 id; bool keep = v.id && v.idw == n; if (keep) id = v.id; else { id = fresh(n); }
    if (v.k == K_VEC) { auto& L = gLanes[v.obj]; u32 eb = n / L.size(); for (u64 b = 0; b < n; b++) putByte(o, lo + b, 0, 255, L[b / eb], id + b); return; }
    if (t.k == T_WIDE) { if (v.lo == v.hi) { for (u64 b = 0; b < n; b++) { u8 c = b < 8 ? (v.lo >> (8 * b)) & 255 : 0; putByte(o, lo + b, c, c, v.label, id + b); } } else for (u64 b = 0; b < n; b++) putByte(o, lo + b, 0, 255, v.label, id + b); return; }
    u64 L = v.lo, H = v.hi;
    if (n == 1) { putByte(o, lo, (u8)std::min<u64>(L, 255), (u8)std::min<u64>(H, 255), v.label, id); return; }
    u64 diff = L ^ H; int top = diff ? 64 - __builtin_clzll(diff) : 0; // bytes above the highest differing bit are exact
    for (u64 b = 0; b < n; b++) { u8 x, y; if ((int)(8 * b) >= top) x = y = (L >> (8 * b)) & 255; else if ((int)(8 * (b + 1)) >= top && b < 8) { x = (L >> (8 * b)) & 255; y = (H >> (8 * b)) & 255; } else { x = 0; y = 255; } putByte(o, lo + b, x, y, v.label, id + b); }
    return; }
  // weak
  i64 step = 1; if (p.cm > 1) { step = p.cm; lo += ((i64)p.cr - (lo % (i64)p.cm) + p.cm) % p.cm; }
  u32 lab = labComb(v.label, p.label); u8 bl = 0, bh = 255; if (v.k == K_INT && n == 1) { bl = (u8)v.lo; bh = (u8)std::min<u64>(v.hi, 255); } if (v.k == K_INT && v.lo == v.hi && v.lo == 0) { bl = bh = 0; }
  if ((hi - lo) / step < 48) { for (i64 x = lo; x <= hi; x += step) weakRange(o, x, x + n, bl, bh, lab); } else weakRange(o, lo, hi + n, bl, bh, lab); }

void Interp::killHctx(State& s, u32 obj) { auto& h = s.hctx; if (h.empty()) return; size_t w = 0; for (size_t i = 0; i < h.size(); i++) if ((u32)(h[i].first >> 32) != obj) { if (w != i) h[w] = h[i]; w++; } h.resize(w); }

void Interp::copyMem(State& s, const V& d, const V& src, const V& n0, bool move) {
  V n = n0; if (n.ext) norm(s, n, 64); checkUse(n, "length");
  if (n.isC() && n.lo == 0) return;
  i64 lo, hi, slo, shi; Obj *o, *so;
  bool symN = !n.isC();
  if (symN || logCopy) {
    std::string sn = "?", dn = "?"; auto desc = [&](const V& p) { return p.k == K_PTR && p.obj ? gObjInfo[p.obj].name : std::string("?"); };
    auto lin = [&](const V& v) { llvm::json::Object j; j["lo"] = (i64)v.lo; j["hi"] = (i64)v.hi; if (v.ext && gExts[v.ext].sym) { j["sym"] = symNames[gExts[v.ext].sym]; j["k"] = gExts[v.ext].symk; j["c"] = gExts[v.ext].symc; } return llvm::json::Value(std::move(j)); };
    llvm::json::Object e; e["ev"] = move ? "memmove" : "memcpy"; e["dst"] = desc(d); e["src"] = desc(src); V dv = d, sv = src; if (dv.ext) norm(s, dv, 64); if (sv.ext) norm(s, sv, 64); e["doff"] = lin(dv); e["soff"] = lin(sv); e["len"] = lin(n); e["where"] = here(); std::string js; llvm::raw_string_ostream os(js); os << llvm::json::Value(std::move(e)); event(s, os.str()); }
  if (symN) { // symbolic or interval length
    // bounds: end must stay inside
    auto chk = [&](const V& p, bool wr, Obj*& ob) { i64 a, b; if (!resolve(s, p, 0, wr, a, b, ob, wr ? "memcpy destination" : "memcpy source")) return false; const ObjInfo& inf = gObjInfo[ob->id]; 
      if (inf.symbolic) { const Ext& se = gExts[inf.sizeExt]; Ext pe; if (p.ext) pe = gExts[p.ext]; else pe.symc = (i64)p.lo; Ext ne; if (n.ext && gExts[n.ext].sym) ne = gExts[n.ext]; else { ne.symc = (i64)n.hi; }
        u32 sy = se.sym; bool same = (!pe.sym || pe.sym == sy) && (!ne.sym || ne.sym == sy); if (!n.ext && !n.isC()) same = same && true;
        if (same) { i64 k = se.symk - (pe.sym ? pe.symk : 0) - (ne.sym ? ne.symk : 0), c = se.symc - pe.symc - ne.symc; auto& r = s.symR[sy]; __int128 v1 = (__int128)k * (__int128)r.first + c, v2 = (__int128)k * (__int128)r.second + c; if (v1 < 0 || v2 < 0) { if (n.wide & W_HI) report("undecided-bounds", "copy length relative to " + inf.name); else report("oob", std::string(wr ? "memcpy destination" : "memcpy source") + " may exceed the symbolic size of " + inf.name); } }
        else report("undecided-bounds", "copy length relative to " + inf.name); }
      else { if ((unsigned __int128)b + n.hi > ob->size) { if (n.wide & W_HI) report("undecided-bounds", "copy length relative to " + inf.name); else report("oob", std::string(wr ? "memcpy destination" : "memcpy source") + " of up to " + std::to_string(n.hi) + " bytes exceeds " + inf.name + " (" + std::to_string(ob->size) + " bytes)"); } }
      return true; };
    if (!chk(src, false, so)) return; u32 lab; u8 bl = 0, bh = 255; if (gObjInfo[so->id].symbolic) lab = labComb(so->dlabel, so->sumLabel); else { if (so->size) summary(so, 0, so->size, bl, bh, lab); else lab = 0; }
    if (!chk(d, true, o)) return; slack(gObjInfo[o->id], (i64)d.lo, (i64)d.hi, n.lo, n.hi, n.wide & W_HI, "memcpy destination"); u32 oid = o->id; o = mutObj(s, oid); o->touched = true;
    if (gObjInfo[oid].symbolic) { o->sumLabel = labJoin(o->sumLabel, lab); } else { i64 a = (i64)d.lo, b = (i64)std::min<unsigned __int128>((unsigned __int128)(u64)d.hi + n.hi, o->size); if (a < 0) a = 0; i64 sure = d.lo == d.hi && !n.wide && !(n.ext && gExts[n.ext].sym) ? std::min<i64>(b, a + (i64)std::min<u64>(n.lo, 1ull << 40)) : b; if (a < sure) weakRange(o, a, sure, bl, bh, lab); if (sure < b) weakRange(o, sure, b, bl, bh, lab, true); }
    return; }
  u64 len = n.lo;
  if (!resolve(s, src, len, false, slo, shi, so, "memcpy source")) { i64 a, b; Obj* q; resolve(s, d, len, true, a, b, q, "memcpy destination"); return; }
  if (!resolve(s, d, len, true, lo, hi, o, "memcpy destination")) return;
  u32 oid = o->id, sid = so->id;
  if (!move && oid == sid && lo == hi && slo == shi && llabs((long long)(lo - slo)) < (long long)len && lo != slo) report("overlap", "memcpy with overlapping source and destination in " + gObjInfo[oid].name);
  bool dsym = gObjInfo[oid].symbolic, ssym = gObjInfo[sid].symbolic;
  if (dsym || ssym) { u32 lab; u8 bl = 0, bh = 255; if (ssym) lab = labComb(so->dlabel, so->sumLabel); else summary(so, slo, shi + len, bl, bh, lab); o = mutObj(s, oid); o->touched = true; if (dsym) o->sumLabel = labJoin(o->sumLabel, lab); else if (lo == hi) { killCells(o, lo, len); u32 id = fresh(len); for (u64 i = 0; i < len; i++) putByte(o, lo + i, bl, bh, lab, id + i); } else weakRange(o, lo, hi + len, bl, bh, lab); return; }
  if (lo == hi && slo == shi) {
    o = mutObj(s, oid); o->touched = true; if (oid == sid) so = o; else so = s.objs.get(sid);
    std::vector<std::pair<u32, V>> cc; if (!so->cells.empty()) for (auto& c : so->cells) if (c.first >= (u64)slo && c.first + c.second.pad <= slo + len) cc.push_back({(u32)(c.first - slo + lo), c.second});
    if (oid == sid) { std::vector<std::array<u32, 4>> tmp(len); for (u64 i = 0; i < len; i++) { u8 x, y; u32 la, id; getByte(so, slo + i, x, y, la, id); tmp[i] = {x, y, la, id}; } killCells(o, lo, len); for (u64 i = 0; i < len; i++) putByte(o, lo + i, tmp[i][0], tmp[i][1], tmp[i][2], tmp[i][3]); }
    else { killCells(o, lo, len); u64 i = 0; while (i < len) { u64 c = std::min<u64>(len - i, std::min<u64>(PG - (lo + i) % PG, PG - (slo + i) % PG)); Page* dp = page(o, lo + i); const Page* sp = so->pages[(slo + i) / PG].p; u32 di = (lo + i) % PG, si = (slo + i) % PG;
        if (sp) { memcpy(dp->lo + di, sp->lo + si, c); memcpy(dp->hi + di, sp->hi + si, c); memcpy(dp->label + di, sp->label + si, 4 * c); memcpy(dp->id + di, sp->id + si, 4 * c); if (gCondRead) for (u64 k = 0; k < c; k++) dp->label[di + k] = labRead(dp->label[di + k]); }
        else { memset(dp->lo + di, so->dlo, c); memset(dp->hi + di, so->dhi, c); for (u64 k = 0; k < c; k++) { dp->label[di + k] = so->dlabel; dp->id[di + k] = so->dids ? so->dids + slo + i + k : 0; } }
        i += c; } }
    for (auto& c : cc) { auto it = std::lower_bound(o->cells.begin(), o->cells.end(), c.first, [](const std::pair<u32, V>& x, u32 q) { return x.first < q; }); o->cells.insert(it, c); }
    if (!s.hctx.empty()) { std::vector<std::pair<u64, Ref<HCtx>>> add; for (auto& h : s.hctx) if ((u32)(h.first >> 32) == sid) { u64 off = (h.first & 0xffffffffu) >> 2; if (off >= (u64)slo && off < slo + len) add.push_back({(u64)oid << 32 | (off - slo + lo) << 2 | (h.first & 3), h.second}); } for (auto& a : add) { bool f = false; for (auto& h : s.hctx) if (h.first == a.first) { h.second = a.second; f = true; } if (!f) s.hctx.push_back(a); } }
    return; }
  u8 bl, bh; u32 lab; summary(so, slo, shi + len, bl, bh, lab);
  // per-position precision when the source is known
  if (slo == shi && (hi - lo) < 4096) { o = mutObj(s, oid); so = s.objs.get(sid); }
  else { o = mutObj(s, oid); so = s.objs.get(sid); }
  o->touched = true; lab = labComb(lab, labComb(d.label, src.label));
  if (lo == hi) { killCells(o, lo, len); u32 id = fresh(len); for (u64 i = 0; i < len; i++) putByte(o, lo + i, bl, bh, lab, id + i); } else weakRange(o, lo, hi + len, bl, bh, lab); }

void Interp::setMem(State& s, const V& d, const V& val, const V& n0, bool secure) {
  V n = n0; if (n.ext) norm(s, n, 64); checkUse(n, "length"); if (n.isC() && n.lo == 0) return; i64 lo, hi; Obj* o;
  if (!n.isC()) { if (!resolve(s, d, 0, true, lo, hi, o, "memset")) return; slack(gObjInfo[o->id], lo, hi, n.lo, n.hi, n.wide & W_HI, "memset"); if (!gObjInfo[o->id].symbolic && (unsigned __int128)(u64)hi + n.hi > o->size) report((n.wide & W_HI) ? "undecided-bounds" : "oob", "memset of up to " + std::to_string(n.hi) + " bytes exceeds " + gObjInfo[o->id].name); u32 id = o->id; o = mutObj(s, id); o->touched = true; if (gObjInfo[id].symbolic) o->sumLabel = labJoin(o->sumLabel, val.label); else weakRange(o, std::max<i64>(lo, 0), std::min<i64>(o->size, hi + n.hi), (u8)val.lo, (u8)val.hi, val.label); return; }
  if (!resolve(s, d, n.lo, true, lo, hi, o, "memset")) return; u32 oid = o->id; o = mutObj(s, oid); o->touched = true;
  u8 bl = val.lo & 255, bh = val.lo == val.hi ? bl : 255; if (val.lo != val.hi) bl = 0;
  if (gObjInfo[oid].symbolic) { o->sumLabel = labJoin(o->sumLabel, val.label); return; }
  if (lo == hi) { killCells(o, lo, n.lo); u32 id = fresh(n.lo); for (u64 i = 0; i < n.lo; i++) putByte(o, lo + i, bl, bh, val.label, id + i); if (secure) o->aux |= 1; } else weakRange(o, lo, hi + n.lo, bl, bh, val.label); }

void Interp::writeFresh(State& s, const V& p, u64 n, u32 label, u32 idBase, const char* what) {
  i64 lo, hi; Obj* o; if (!n) return; if (!resolve(s, p, n, true, lo, hi, o, what)) return; u32 oid = o->id; o = mutObj(s, oid); o->touched = true;
  if (gObjInfo[oid].symbolic) { o->sumLabel = labJoin(o->sumLabel, label); return; }
  if (lo == hi) { killCells(o, lo, n); for (u64 i = 0; i < n; i++) putByte(o, lo + i, 0, 255, label, idBase + i); } else weakRange(o, lo, hi + n, 0, 255, label); }

// The bytes [p, p+n) as transcript segments; assigns identities to anonymous bytes at exact locations.
std::vector<Seg> Interp::readSegs(State& s, const V& p0, const V& n0, const char* what, u32& label) {
  std::vector<Seg> out; V n = n0, p = p0; if (n.ext) norm(s, n, 64); checkUse(n, "length"); label = 0; bool firstL = true;
  auto addL = [&](u32 l) { label = firstL ? l : labComb(label, l); firstL = false; };
  if (n.isC() && n.lo == 0) return out; i64 lo, hi; Obj* o;
  if (!n.isC()) {
    if (p.k == K_PTR && p.obj == 0) { report("undecided-null", std::string(what) + ": null pointer with a length not known to be zero"); return out; }
    if (!resolve(s, p, 0, false, lo, hi, o, what)) return out; const ObjInfo& inf = gObjInfo[o->id];
    Seg g; g.k = 3; g.obj = o->id; g.label = labComb(o->dlabel, o->sumLabel);
    if (inf.symbolic) { const Ext& se = gExts[inf.sizeExt]; Ext pe; if (p.ext) pe = gExts[p.ext]; else pe.symc = (i64)p.lo; Ext ne; bool okE = false; if (n.ext && gExts[n.ext].sym) { ne = gExts[n.ext]; okE = true; } 
      if (okE && (!pe.sym || pe.sym == se.sym) && ne.sym == se.sym) { i64 k = se.symk - (pe.sym ? pe.symk : 0) - ne.symk, c = se.symc - pe.symc - ne.symc; auto& r = s.symR[se.sym]; __int128 v1 = (__int128)k * (__int128)r.first + c, v2 = (__int128)k * (__int128)r.second + c; if (v1 < 0 || v2 < 0) report("oob", std::string(what) + " may exceed the symbolic size of " + inf.name); }
      else { __int128 sl, sh; symRange(s, se, sl, sh); if ((__int128)(u64)hi + (__int128)n.hi > sl) report("undecided-bounds", std::string(what) + " relative to " + inf.name); }
      Ext le; if (okE) le = ne; g.lenExt = okE ? internExt(le) : 0; g.val = okE ? 0 : 1; pe.facts = 0; pe.pol = 0; pe.cx = 0; g.offExt = (pe.sym || pe.symc) ? internExt(pe) : 0; }
    else { g.val = 1; if ((unsigned __int128)(u64)hi + n.hi > o->size) report((n.wide & W_HI) ? "undecided-bounds" : "oob", std::string(what) + " of up to " + std::to_string(n.hi) + " bytes exceeds " + inf.name); u8 a, b; u32 l; if (o->size) { summary(o, 0, o->size, a, b, l); g.label = l; } }
    addL(g.label); out.push_back(g); return out; }
  u64 len = n.lo; if (!resolve(s, p, len, false, lo, hi, o, what)) return out; const ObjInfo& inf = gObjInfo[o->id];
  if (inf.symbolic) { Seg g; g.k = 3; g.obj = o->id; g.label = labComb(o->dlabel, o->sumLabel); g.val = 2; g.len = len; Ext pe; if (p.ext) pe = gExts[p.ext]; else pe.symc = (i64)p.lo; pe.facts = 0; pe.pol = 0; pe.cx = 0; g.offExt = (pe.sym || pe.symc) ? internExt(pe) : 0; addL(g.label); out.push_back(g); return out; }
  if (lo != hi) { u8 a, b; u32 l; summary(o, lo, hi + len, a, b, l); l = labComb(l, p.label); Seg g; g.k = 2; g.len = len; g.label = l; addL(l); out.push_back(g); return out; }
  bool needId = false; for (u64 i = 0; i < len && !needId; i++) { u8 x, y; u32 l, id; getByte(o, lo + i, x, y, l, id); if (!id && x != y) needId = true; }
  if (needId && !inf.constant) { o = mutObj(s, o->id); u32 run = 0; for (u64 i = 0; i < len; i++) { u8 x, y; u32 l, id; getByte(o, lo + i, x, y, l, id); if (!id) { if (!run) run = fresh(len - i); putByte(o, lo + i, x, y, l, run++); } else run = 0; } }
  for (u64 i = 0; i < len; i++) { u8 x, y; u32 l, id; bool cell = false; for (auto& c : o->cells) if (c.first <= lo + i && c.first + c.second.pad > lo + i) { l = c.second.label; cell = true; x = 0; y = 255; id = 0; }
    if (!cell) getByte(o, lo + i, x, y, l, id); addL(l);
    if (x == y && !l) { Seg g; g.k = 1; g.len = 1; g.val = x; out.push_back(g); continue; }
    if (!out.empty()) { Seg& q = out.back(); if (id && q.k == 0 && q.id + q.len == id && q.label == l) { q.len++; continue; } if (!id && q.k == 2 && q.label == l) { q.len++; continue; } }
    Seg g; g.k = id ? 0 : 2; g.id = id; g.len = 1; g.label = l; out.push_back(g); }
  return out; }

// undefined behaviour that leaves the accessed object unchanged: misaligned typed accesses, signed overflow
void Interp::alignUse(const V& p, u32 al) {
  if (al <= 1 || p.k != K_PTR || !p.obj || muted) return; alignChecks++;
  const ObjInfo& inf = gObjInfo[p.obj]; u64 g = al, r;
  if (p.lo == p.hi) r = p.lo & (al - 1);
  else if (p.cm > 1) { u64 m = p.cm, t; while (m) { t = g % m; g = m; m = t; } r = p.cr % g; }
  else { g = 1; r = 0; }
  if (r) report("misaligned", "access that assumes " + std::to_string(al) + "-byte alignment at offset " + (p.lo == p.hi ? std::to_string((i64)p.lo) : "= " + std::to_string(r) + " mod " + std::to_string(g)) + " of " + (inf.name.empty() ? "an object" : inf.name));
  else if (inf.align && inf.align < al) report("misaligned", "access that assumes " + std::to_string(al) + "-byte alignment of " + (inf.name.empty() ? std::string("an object") : inf.name) + ", which is only guaranteed to be " + std::to_string(inf.align) + "-byte aligned");
  else if (g < al || !inf.align) counters["alignment_undecided"]++;
}
void Interp::overflowUse(Cur& c, const Inst& x, V a, V b) {
  if (a.k != K_INT || b.k != K_INT || x.w > 64 || muted) return; signedOps++;
  if (a.ext) norm(c.st, a, x.w); if (b.ext) norm(c.st, b, x.w);
  typedef __int128 L; L top = (L)1 << x.w, mx = ((L)1 << (x.w - 1)) - 1, mn = -mx - 1;
  auto sg = [&](const V& v, L& l, L& h) { l = v.lo; h = v.hi; if (h > mx) { if (l > mx) { l -= top; h -= top; } else { l = mn; h = mx; return false; } } return true; };
  L al, ah, bl, bh; bool k = sg(a, al, ah); k &= sg(b, bl, bh); L lo, hi;
  if (x.sub == Instruction::Add) { lo = al + bl; hi = ah + bh; } else if (x.sub == Instruction::Sub) { lo = al - bh; hi = ah - bl; }
  else if (x.sub == Instruction::Mul) { L q[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = hi = q[0]; for (L z : q) { lo = std::min(lo, z); hi = std::max(hi, z); } } else return;
  if (lo > mx || hi < mn) report("overflow", "signed arithmetic overflows");
  else if (hi > mx || lo < mn) counters["signed_overflow_undecided"]++;
}
