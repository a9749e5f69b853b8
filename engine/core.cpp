#include "core.h"
std::vector<LabelBits> gLabels(1);
static std::unordered_map<LabelBits, u32, LabelHash> labMap = {{LabelBits(), 0}};
std::vector<std::string> gAtomNames = {"UNINIT", "MAYUNINIT", "CONDUNINIT"}; bool gLenient = false, gLoopJoin = false, gCondRead = false;
static std::map<std::string, int> atomMap = {{"UNINIT", 0}, {"MAYUNINIT", 1}};
PairCache cComb, cJoin, cWeak;
u32 internLabel(const LabelBits& b) { auto it = labMap.find(b); if (it != labMap.end()) return it->second; u32 i = gLabels.size(); gLabels.push_back(b); labMap[b] = i; return i; }
int atomIndex(const std::string& n) { auto it = atomMap.find(n); if (it != atomMap.end()) return it->second; int i = gAtomNames.size(); if (i >= 128) { fprintf(stderr, "too many atoms\n"); exit(3); } gAtomNames.push_back(n); atomMap[n] = i; return i; }
u32 labelAtom(int a) { LabelBits b; b.may.set(a); if (a != A_UNINIT) b.must.set(a); return internLabel(b); }
u32 labCombSlow(u32 a, u32 b) { LabelBits r; r.may = gLabels[a].may | gLabels[b].may; r.must = gLabels[a].must | gLabels[b].must; return internLabel(r); }
u32 labJoinSlow(u32 a, u32 b) { LabelBits r; r.may = gLabels[a].may | gLabels[b].may; r.must = gLabels[a].must & gLabels[b].must; return internLabel(r); }
u32 labImprecise(u32 a) { if (!gLabels[a].may.test(A_CONDUN)) return a; LabelBits x = gLabels[a]; x.may.clr(A_CONDUN); x.may.set(A_MAYUN); return internLabel(x); }
u32 labJoinLenient(u32 a, u32 b, int atom) { LabelBits x = gLabels[a], y = gLabels[b]; bool ux = x.may.test(A_UNINIT), uy = y.may.test(A_UNINIT); if (ux == uy) return labJoinSlow(a, b);
  LabelBits r; r.may = x.may | y.may; r.may.clr(A_UNINIT); r.may.set(atom); r.must = ux ? y.must : x.must; return internLabel(r); }
u32 labWeakSlow(u32 a, u32 b) { LabelBits r; LabelBits o = gLabels[a]; bool nu = gLabels[b].may.test(A_UNINIT); bool ou = o.may.test(A_UNINIT); o.may.clr(A_UNINIT); o.may.clr(A_CONDUN); r.may = o.may | gLabels[b].may; if (nu) r.may.set(A_UNINIT); r.must = ou ? gLabels[b].must : (o.must & gLabels[b].must); return internLabel(r); }

std::vector<std::vector<u32>> gLanes(1); static std::map<std::vector<u32>, u32> laneMap;
u32 internLanes(const std::vector<u32>& v) { auto it = laneMap.find(v); if (it != laneMap.end()) return it->second; u32 i = gLanes.size(); gLanes.push_back(v); laneMap[v] = i; return i; }
std::vector<std::vector<Fact>> gFactSets(1); static std::map<std::vector<Fact>, u32> factMap = {{{}, 0}};
u32 internFacts(std::vector<Fact> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); auto it = factMap.find(v); if (it != factMap.end()) return it->second; u32 i = gFactSets.size(); gFactSets.push_back(v); factMap[v] = i; return i; }
static std::unordered_map<u64, u32> fuC, fiC;
u32 factsUnion(u32 a, u32 b) { if (a == b || !b) return a; if (!a) return b; if (a > b) std::swap(a, b); auto it = fuC.find((u64)a << 32 | b); if (it != fuC.end()) return it->second;
  std::vector<Fact> r; std::set_union(gFactSets[a].begin(), gFactSets[a].end(), gFactSets[b].begin(), gFactSets[b].end(), std::back_inserter(r)); u32 x = internFacts(r); fuC[(u64)a << 32 | b] = x; return x; }
u32 factsInter(u32 a, u32 b) { if (a == b) return a; if (!a || !b) return 0; if (a > b) std::swap(a, b); auto it = fiC.find((u64)a << 32 | b); if (it != fiC.end()) return it->second;
  std::vector<Fact> r; std::set_intersection(gFactSets[a].begin(), gFactSets[a].end(), gFactSets[b].begin(), gFactSets[b].end(), std::back_inserter(r)); u32 x = internFacts(r); fiC[(u64)a << 32 | b] = x; return x; }
std::vector<Ext> gExts(1); static std::map<Ext, u32> extMap = {{Ext(), 0}};
std::vector<std::vector<Cond>> gConds(1);
u32 internConds(std::vector<Cond> v) { if (v.empty()) return 0; static std::map<std::vector<Cond>, u32> m; std::sort(v.begin(), v.end()); auto it = m.find(v); if (it != m.end()) return it->second; gConds.push_back(v); return m[v] = gConds.size() - 1; }
u32 condsJoin(u32 a, u32 b) { if (a == b) return a; std::vector<Cond> r; for (auto& x : gConds[a]) for (auto& y : gConds[b]) if (x.k == y.k && x.mask == y.mask) { u32 f = factsInter(x.f, y.f); if (f) r.push_back({x.k, x.mask, f}); } return internConds(r); }
u32 condsJoinConst(u32 a, u64 c) { std::vector<Cond> r; for (auto& x : gConds[a]) { bool fires = x.k == 0 ? !(c & x.mask) : x.k == 1 ? (c & x.mask) != 0 : (~c & x.mask) != 0; if (!fires) r.push_back(x); } return internConds(r); }
u32 internExt(const Ext& e) { auto it = extMap.find(e); if (it != extMap.end()) return it->second; u32 i = gExts.size(); gExts.push_back(e); extMap[e] = i; return i; }
std::vector<std::vector<V>> gAggs(1);

bool sameV(const V& a, const V& b) {
  if (a.k != b.k || a.label != b.label || a.ext != b.ext) return false;
  if (a.k == K_AGG) { if (a.obj == b.obj) return true; auto &x = gAggs[a.obj], &y = gAggs[b.obj]; if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!sameV(x[i], y[i])) return false; return true; }
  return a.obj == b.obj && a.lo == b.lo && a.hi == b.hi && a.cm == b.cm && a.cr == b.cr && a.id == b.id && a.wide == b.wide && a.idw == b.idw && a.pad2 == b.pad2;
}
static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static void congJoin(V& r, const V& a, const V& b) {
  // constants: modulus 0 (= exact)
  u64 ma = a.lo == a.hi ? 0 : (a.cm > 1 ? a.cm : 1), mb = b.lo == b.hi ? 0 : (b.cm > 1 ? b.cm : 1);
  u64 ra = a.lo == a.hi ? a.lo : a.cr, rb = b.lo == b.hi ? b.lo : b.cr;
  u64 d = ra > rb ? ra - rb : rb - ra; u64 g = gcd64(gcd64(ma, mb), d);
  if (g > 1 && g < (1u << 31)) { r.cm = g; r.cr = ra % g; } else { r.cm = r.cr = 0; }
}
V joinV(const V& a, const V& b, bool widen) {
  if (sameV(a, b)) return a;
  u32 lab = labJoin(a.label, b.label);
  if (a.k != b.k) { 
    if (a.k == K_INT && b.k == K_INT) {}
    if (a.k == K_VEC || b.k == K_VEC) { V r = a.k == K_VEC ? a : b; r.label = lab; r.id = 0; return r; }
    return mkTopPtr(lab); }
  switch (a.k) {
  case K_INT: { V r; r.label = lab; r.wide = a.wide | b.wide;
    r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
    if (widen) { if (b.lo < a.lo) { r.lo = 0; r.wide |= W_LO; } if (b.hi > a.hi) { r.hi = ~0ull; r.wide |= W_HI; } }
    congJoin(r, a, b);
    if (a.ext == b.ext) r.ext = a.ext;
    else if (a.ext && b.ext) { const Ext &x = gExts[a.ext], &y = gExts[b.ext]; Ext e; if (x.sym == y.sym && x.symk == y.symk && x.symc == y.symc) { e.sym = x.sym; e.symk = x.symk; e.symc = x.symc; } if (x.pol && x.pol == y.pol) { e.pol = x.pol; e.facts = factsInter(x.facts, y.facts); if (!e.facts) e.pol = 0; } if (x.cx && y.cx) e.cx = condsJoin(x.cx, y.cx); r.ext = internExt(e); }
    else { // one side constant: a fact "value==0 => F" also holds if the constant side is nonzero
      const V& s = a.ext ? a : b; const V& c = a.ext ? b : a; const Ext& x = gExts[s.ext]; if (c.lo == c.hi) { Ext e; if (x.pol && ((x.pol == 1 && c.lo != 0) || (x.pol == 2 && c.lo == 0))) { e.pol = x.pol; e.facts = x.facts; } if (x.cx) e.cx = condsJoinConst(x.cx, c.lo); if (e.facts || e.cx) r.ext = internExt(e); } }
    if (a.id && a.id == b.id && a.idw == b.idw) { r.id = a.id; r.idw = a.idw; }
    if (a.obj && a.obj == b.obj && a.pad2 == b.pad2 && a.idw == b.idw && a.pad == b.pad) { r.obj = a.obj; r.pad2 = a.pad2; r.idw = a.idw; }
    return r; }
  case K_PTR: { if (a.obj != b.obj) return mkTopPtr(lab);
    V r = a; r.label = lab; r.wide = a.wide | b.wide; r.lo = (u64)std::min((i64)a.lo, (i64)b.lo); r.hi = (u64)std::max((i64)a.hi, (i64)b.hi);
    if (widen) { if ((i64)b.lo < (i64)a.lo) { r.lo = (u64)(-(1ll << 40)); r.wide |= W_LO; } if ((i64)b.hi > (i64)a.hi) { r.hi = 1ull << 40; r.wide |= W_HI; } }
    congJoin(r, a, b); if (a.ext != b.ext) r.ext = 0; return r; }
  case K_VEC: { V r = a; r.label = lab; r.id = a.id == b.id ? a.id : 0; if (a.obj != b.obj) { auto &x = gLanes[a.obj], &y = gLanes[b.obj]; if (x.size() == y.size()) { std::vector<u32> z(x.size()); for (size_t i = 0; i < x.size(); i++) z[i] = labJoin(x[i], y[i]); r.obj = internLanes(z); } } return r; }
  case K_AGG: { auto x = gAggs[a.obj], y = gAggs[b.obj]; for (size_t i = 0; i < x.size() && i < y.size(); i++) x[i] = joinV(x[i], y[i], widen); V r = a; gAggs.push_back(x); r.obj = gAggs.size() - 1; r.label = lab; return r; }
  default: { V r = a; r.label = lab; if (a.obj != b.obj) r = mkTopPtr(lab); return r; }
  }
}
