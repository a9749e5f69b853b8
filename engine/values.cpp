#include "interp.h"
using namespace llvm;
typedef __int128 i128; typedef unsigned __int128 u128;
static u64 onesUpTo(u64 x) { if (!x) return 0; int b = 64 - __builtin_clzll(x); return maskW(b); }
static u64 gcdu(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static bool isPow2(u64 x) { return x && !(x & (x - 1)); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }

void Interp::symRange(State& s, const Ext& e, i128& lo, i128& hi) { auto& r = s.symR[e.sym]; i128 a = (i128)e.symk * (i128)(u128)r.first + e.symc, b = (i128)e.symk * (i128)(u128)r.second + e.symc; lo = std::min(a, b); hi = std::max(a, b); }
void Interp::norm(State& s, V& v, unsigned w) { if (!v.ext || !gExts[v.ext].sym) return; i128 lo, hi; symRange(s, gExts[v.ext], lo, hi); if (v.k == K_INT) { if (lo < 0 || hi > (i128)(u128)maskW(w)) return; if ((u64)lo > v.lo) v.lo = (u64)lo; if ((u64)hi < v.hi) v.hi = (u64)hi; } else if (v.k == K_PTR) { v.lo = (u64)(i64)lo; v.hi = (u64)(i64)hi; } }
u32 factsPol(const V& v, int pol) { // facts implied by v==0 (pol 1) or v!=0 (pol 2)
  u32 f = 0; if (v.ext && gExts[v.ext].pol == pol) f = gExts[v.ext].facts;
  if (v.ext && gExts[v.ext].cx && v.k == K_INT) { u64 m = onesUpTo(v.hi); for (auto& c : gConds[gExts[v.ext].cx]) if (pol == 1 ? c.k != 1 : (c.k == 1 && !(m & ~c.mask))) f = factsUnion(f, c.f); }
  if (pol == 1 && v.k == K_INT && v.obj) { std::vector<Fact> x; for (int i = 0; i < v.idw; i++) x.push_back({F_EQ, std::min(v.obj, v.pad2) + i, std::max(v.obj, v.pad2) + i}); f = factsUnion(f, internFacts(x)); }
  return f; }
static u32 extFacts(u32 facts, int pol, u32 sym = 0, i64 k = 0, i64 c = 0) { Ext e; if (facts) { e.facts = facts; e.pol = pol; } e.sym = sym; e.symk = k; e.symc = c; if (!e.sym) { e.symk = e.symc = 0; } return (e.sym || e.facts) ? internExt(e) : 0; }
// Everything known about the facts that single bits of a value imply.
static void condsOf(const V& v, unsigned w, std::vector<Cond>& r) { u64 m = onesUpTo(v.hi) & maskW(w); if (v.k != K_INT || !m) return;
  if (v.ext) { const Ext& e = gExts[v.ext]; if (e.facts && e.pol == 1) r.push_back({0, m, e.facts}); if (e.facts && e.pol == 2) r.push_back({1, maskW(w), e.facts}); if (e.cx) for (auto& c : gConds[e.cx]) r.push_back(c); }
  if (v.obj && v.idw) { u32 p = std::min(v.obj, v.pad2), q = std::max(v.obj, v.pad2); std::vector<Fact> all; for (u32 i = 0; i < v.idw; i++) { Fact f{F_EQ, p + i, q + i}; if (v.pad) r.push_back({0, 255ull << (8 * i), internFacts({f})}); else all.push_back(f); } if (!all.empty()) r.push_back({0, maskW(8 * v.idw), internFacts(all)}); }
  size_t n = r.size(); for (size_t i = 0; i < n; i++) { if (r[i].k == 0 && v.hi <= maskW(w)) r[i].mask &= m; if (r[i].k == 0 && isPow2(r[i].mask)) r.push_back({2, r[i].mask, r[i].f}); } }
static u32 condFacts(const std::vector<Cond>& v, u64 c, unsigned w) { u32 f = 0; for (auto& x : v) { bool fires = x.k == 0 ? !(c & x.mask) : x.k == 1 ? (c & x.mask) != 0 : (~c & x.mask & maskW(w)) != 0; if (fires) f = factsUnion(f, x.f); } return f; }
static void setConds(V& r, unsigned w, std::vector<Cond>& v) { std::map<std::pair<u8, u64>, u32> m; const u64 M = maskW(w); for (auto& c : v) { u64 k = c.mask & M; if (!k || !c.f || (c.k == 0 && k != c.mask)) continue; u32& f = m[{c.k, k}]; f = f ? factsUnion(f, c.f) : c.f; }
  if (m.empty() || m.size() > 24) return; std::vector<Cond> z; for (auto& x : m) z.push_back({x.first.first, x.first.second, x.second}); Ext e; if (r.ext) e = gExts[r.ext]; e.cx = internConds(z); r.ext = internExt(e); }
static V boolFacts(V r, u32 whenTrue, u32 whenFalse) { Ext e; if (whenTrue) { e.facts = whenTrue; e.pol = 2; if (whenFalse) e.cx = internConds({{2, 1, whenFalse}}); } else if (whenFalse) { e.facts = whenFalse; e.pol = 1; } if (e.facts) r.ext = internExt(e); return r; }
static void condTransfer(unsigned op, unsigned w, const V& a, const V& b, V& r) {
  std::vector<Cond> A, B, R; condsOf(a, w, A); condsOf(b, w, B); if (A.empty() && B.empty()) return; const u64 M = maskW(w); bool ac = a.lo == a.hi, bc = b.lo == b.hi;
  auto both = [&](u32 z, u32 n) { if (z) R.push_back({0, M, z}); if (n) R.push_back({1, M, n}); };
  auto neg = [&](const std::vector<Cond>& X, const V& x) { u32 z = condFacts(X, 0, w), n = factsPol(x, 2); both(z, n); u64 h = M & ~onesUpTo(x.hi); if (h && z) R.push_back({2, h, z}); if (z && isPow2(x.hi) && x.hi - 1 + x.hi == M) R.push_back({2, x.hi, z}); };
  auto minus = [&](const std::vector<Cond>& X, const V& x, u64 c) { u32 e = condFacts(X, c, w); if (e) R.push_back({0, M, e}); if (c == 1) { u64 h = M & ~onesUpTo(x.hi); u32 z = condFacts(X, 0, w), n = factsPol(x, 2); if (h && z) R.push_back({1, h, z}); if (h && n) R.push_back({2, h, n}); } };
  switch (op) {
  case Instruction::Or: for (auto* X : {&A, &B}) for (auto& c : *X) if (c.k != 1) R.push_back(c); break;
  case Instruction::And: if (ac || bc) { u64 c = ac ? a.lo : b.lo; for (auto& x : ac ? B : A) { if (x.k == 0 && (x.mask & ~c)) continue; Cond y = x; y.mask &= c; R.push_back(y); } } else for (auto* X : {&A, &B}) for (auto& c : *X) if (c.k == 1) R.push_back(c); break;
  case Instruction::LShr: case Instruction::AShr: if (!bc || b.lo >= w) break; for (auto c : A) { u64 k = c.mask >> b.lo; if (c.k == 0 && (k << b.lo) != c.mask) continue; if (op == Instruction::AShr && c.k && (c.mask >> (w - 1))) k |= M & ~(M >> b.lo); c.mask = k; R.push_back(c); } break;
  case Instruction::Shl: if (!bc || b.lo >= w) break; for (auto c : A) { u64 k = (c.mask << b.lo) & M; if (c.k == 0 && (k >> b.lo) != c.mask) continue; c.mask = k; R.push_back(c); } break;
  case Instruction::Sub: if (ac && a.lo == 0) neg(B, b); else if (ac) { u32 e = condFacts(B, a.lo, w); if (e) R.push_back({0, M, e}); if (a.lo == 1 && b.hi <= 1) both(0, condFacts(B, 0, w)); } else if (bc) minus(A, a, b.lo); break;
  case Instruction::Add: if (ac && a.lo) minus(B, b, (M + 1 - a.lo) & M); else if (bc && b.lo) minus(A, a, (M + 1 - b.lo) & M); break;
  case Instruction::Mul: if (ac || bc) { u64 c = ac ? a.lo : b.lo; const V& x = ac ? b : a; auto& X = ac ? B : A; if (c == M) neg(X, x); else if ((c & 1) || (c && (u128)c * x.hi <= M)) both(condFacts(X, 0, w), factsPol(x, 2)); } break;
  case Instruction::Xor: if (ac || bc) { u64 c = ac ? a.lo : b.lo; for (auto& x : ac ? B : A) { if (x.k == 0) { if (!(x.mask & c)) R.push_back(x); } else { R.push_back({x.k, x.mask & ~c, x.f}); R.push_back({(u8)(3 - x.k), x.mask & c, x.f}); } } u32 e = condFacts(ac ? B : A, c, w); if (e) R.push_back({0, M, e}); } break;
  default: break; }
  if (!R.empty()) setConds(r, w, R); }
// x | -x: the sign bit is zero iff x is zero
void orNeg(const V& x, unsigned w, V& r) { std::vector<Cond> X, R; condsOf(x, w, X); u32 z = condFacts(X, 0, w), n = factsPol(x, 2); if (r.ext && gExts[r.ext].cx) R = gConds[gExts[r.ext].cx]; u64 sb = 1ull << (w - 1); if (z) R.push_back({2, sb, z}); if (n) R.push_back({1, sb, n}); setConds(r, w, R); }
static inline void cong(const V& a, u64& m, u64& r) { if (a.lo == a.hi) { m = 0; r = a.lo; } else if (a.cm > 1) { m = a.cm; r = a.cr; } else { m = 1; r = 0; } }
static inline void setCong(V& v, u64 m, u64 r) { if (m > 1 && m < (1ull << 31)) { v.cm = m; v.cr = r % m; } }

V Interp::castInt(const V& a, unsigned from, unsigned to, int kind) {
  V r = castCore(a, from, to, kind);
  if ((kind == I_TRUNC || kind == I_SEXT) && r.k == K_INT && a.k == K_INT && from <= 64 && to <= 64 && r.lo != r.hi && (a.ext || (a.obj && r.obj != a.obj))) { std::vector<Cond> A; condsOf(a, from, A); u64 sb = 1ull << (from - 1); if (kind == I_SEXT) for (auto& c : A) if (c.k && (c.mask & sb)) c.mask |= maskW(to) & ~maskW(from); if (!A.empty()) setConds(r, to, A); }
  return r; }
V Interp::castCore(const V& a, unsigned from, unsigned to, int kind) {
  if (a.k == K_PTR || a.k == K_TOPPTR || a.k == K_FN) return to >= 64 ? a : mkTop(to, a.label);
  if (a.k == K_VEC) return mkTop(to, a.label);
  V r = a; u64 mt = maskW(to);
  if (from > 64) { if (a.lo == a.hi) return mkC(a.lo & mt, a.label); return mkTop(to, a.label); }
  if (to > 64) { V t; t.label = a.label; t.lo = a.lo; t.hi = a.hi == a.lo ? a.hi : ~0ull; return t; }
  if (kind == I_TRUNC) {
    if (a.hi <= mt) { return r; }
    if (a.lo == a.hi) { return mkC(a.lo & mt, a.label); }
    V t = mkTop(to, a.label); t.wide = 0;
    if ((a.lo & ~mt) == (a.hi & ~mt)) { t.lo = a.lo & mt; t.hi = a.hi & mt; }
    if (a.cm > 1 && isPow2(a.cm)) { if (a.cm <= mt) { t.cm = a.cm; t.cr = a.cr; } }
    u32 f = factsPol(a, 2); if (f) t.ext = extFacts(f, 2);
    return t; }
  if (kind == I_ZEXT) return r;
  // sext
  u64 sb = 1ull << (from - 1);
  if (a.hi < sb) return r;
  if (a.lo >= sb) { V t = a; t.id = 0; t.obj = t.pad2 = 0; t.cm = t.cr = 0; t.lo = (u64)sx(a.lo, from) & mt; t.hi = (u64)sx(a.hi, from) & mt; if (t.ext) { const Ext& e = gExts[t.ext]; t.ext = extFacts(e.facts, e.pol); } return t; }
  V t = mkTop(to, a.label); if (a.ext) { const Ext& e = gExts[a.ext]; t.ext = extFacts(e.facts, e.pol); } return t;
}

// ------------------------------------------------------------------ term identities
static inline u64 mix64(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); }
bool Interp::isNamed(u32 id) const { size_t a = 0, b = ids.size(); while (a < b) { size_t m = (a + b) / 2; if (ids[m].base <= id) a = m + 1; else b = m; } return a && id - ids[a - 1].base < ids[a - 1].len; }
Interp::K128 Interp::termKey(u32 id, u64 c, bool& exact) { K128 k; if (id) { auto it = xorTerm.find(id); if (it != xorTerm.end()) { if (!it->second.second) exact = false; return it->second.first; } if (!isNamed(id)) exact = false; k.a = mix64(id + 0x9e3779b97f4a7c15ull); k.b = mix64(k.a + id * 0xc2b2ae3d27d4eb4full); return k; }
  for (int i = 0; i < 8; i++) if ((c >> i) & 1) { u64 x = mix64(0xabcdef0123456789ull + i); k.a ^= x; k.b ^= mix64(x + 77); } return k; }
u32 Interp::xorTermId(u32 x, u32 y) { bool ex = true; K128 p = termKey(x, 0, ex), q = termKey(y, 0, ex); p.a ^= q.a; p.b ^= q.b; auto it = xorIds.find(p); if (it != xorIds.end()) return it->second;
  u32 r = 0; if (!p.a && !p.b) return 0; r = fresh(1); xorIds[p] = r; xorTerm[r] = {p, ex}; return r; }
// Canonical key of a byte string; false when a byte has no identity.
bool Interp::termIn(const std::vector<Seg>& v, K128& k, std::vector<u32>* in) { bool ex = true; auto add = [&](u64 x) { k.a = mix64(k.a * 0x9E3779B97F4A7C15ull + x + 1); k.b = mix64((k.b ^ x) * 0xC2B2AE3D27D4EB4Full + k.a); };
  for (auto& g : v) { if (g.k == 0) { for (u32 i = 0; i < g.len; i++) { auto it = xorTerm.find(g.id + i); if (it != xorTerm.end() ? !it->second.second : !isNamed(g.id + i)) ex = false; add(((u64)1 << 32) | (g.id + i)); if (in) in->push_back(g.id + i); } } else if (g.k == 1) { for (u32 i = 0; i < g.len; i++) { add(g.val & 255); if (in) in->push_back(0); } } else return false; }
  return ex; }
u32 Interp::oracleOut(const K128& k, u32 len, u8 kind, u32 rec, u32 off, bool prg, const std::vector<u32>& in) { auto it = oracleIdx.find(k); if (it != oracleIdx.end() && oracles[it->second].len >= len) return oracles[it->second].base; u32 b = fresh(len); ids.push_back({b, len, kind, rec, off}); oracleIdx[k] = oracles.size(); oracles.push_back({prg, in, b, len}); return b; }
void Interp::closure(std::vector<u8>& known) { known.resize(nextId, 0); for (bool ch = true; ch;) { ch = false; for (auto& o : oracles) { bool all = true; for (u32 i : o.in) if (i && !known[i]) { all = false; break; } if (!all) continue; for (u32 i = 0; i < o.len; i++) if (!known[o.base + i]) { known[o.base + i] = 1; ch = true; } } } }

V Interp::bin(State& s, unsigned op, unsigned w, const V& a0, const V& b0) {
  V r = binCore(s, op, w, a0, b0);
  if ((a0.ext || b0.ext || a0.obj || b0.obj) && r.k == K_INT && w <= 64 && a0.k == K_INT && b0.k == K_INT && r.lo != r.hi) condTransfer(op, w, a0, b0, r);
  return r; }
V Interp::binCore(State& s, unsigned op, unsigned w, const V& a0, const V& b0) {
  u32 lab = labComb(a0.label, b0.label);
  if (a0.k != K_INT || b0.k != K_INT) {
    if (a0.k == K_PTR && b0.k == K_INT && (op == Instruction::Add || op == Instruction::Sub) && b0.lo == b0.hi) { V r = a0; r.label = lab; i64 d = op == Instruction::Add ? (i64)b0.lo : -(i64)b0.lo; r.lo += d; r.hi += d; r.ext = 0; return r; }
    if (a0.k == K_PTR && b0.k == K_PTR && op == Instruction::Sub && a0.obj == b0.obj) { i64 lo = (i64)a0.lo - (i64)b0.hi, hi = (i64)a0.hi - (i64)b0.lo; if (lo == hi) return mkC((u64)lo, lab); if (lo >= 0) return mkRange(lo, hi, lab); return mkTop(64, lab); }
    return mkTop(w, lab); }
  if (w > 64) { V v; v.label = lab; v.hi = ~0ull; return v; }
  if (zfAtom >= 0 && lab && op != Instruction::And && op != Instruction::Or && op != Instruction::Xor && gLabels[lab].may.test(zfAtom) && !(a0.lo == a0.hi && b0.lo == b0.hi)) zfArith++;
  const u64 M = maskW(w); V a = a0, b = b0;
  if (a.ext) norm(s, a, w); if (b.ext) norm(s, b, w);
  if (a.lo == a.hi && b.lo == b.hi) { u64 x = a.lo, y = b.lo, r = 0; bool ok = true; i64 sxx = sx(x, w), sy = sx(y, w);
    switch (op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::UDiv: ok = y; if (ok) r = x / y; break; case Instruction::URem: ok = y; if (ok) r = x % y; break; case Instruction::SDiv: ok = y && !(sy == -1); if (y && sy == -1) { ok = true; r = (u64)0 - (u64)sxx; } else if (ok) r = (u64)(sxx / sy); break; case Instruction::SRem: ok = y; if (ok) r = sy == -1 ? 0 : (u64)(sxx % sy); break;
      case Instruction::Shl: ok = y < w; if (ok) r = x << y; break; case Instruction::LShr: ok = y < w; if (ok) r = x >> y; break; case Instruction::AShr: ok = y < w; if (ok) r = (u64)(sxx >> y); break; default: ok = false; }
    if (!ok) return mkTop(w, lab);
    V v = mkC(r & M, lab);
    // verdict facts survive on constants only through the other operand
    if (op == Instruction::Or && (a.ext || b.ext)) { u32 f = factsUnion(factsPol(a, 1), factsPol(b, 1)); if (f) v.ext = extFacts(f, 1); }
    return v; }
  V r = mkTop(w, lab); r.wide = a.wide | b.wide;
  u64 ma, ra, mb, rb; cong(a, ma, ra); cong(b, mb, rb);
  switch (op) {
  case Instruction::Add: {
    if (b.lo == b.hi && b.lo == 0) { V t = a0; t.label = lab; return t; } if (a.lo == a.hi && a.lo == 0) { V t = b0; t.label = lab; return t; }
    u128 lo = (u128)a.lo + b.lo, hi = (u128)a.hi + b.hi; bool wrapAll = lo > M && hi > M, no = hi <= M;
    if (no || wrapAll) { r.lo = (u64)lo & M; r.hi = (u64)hi & M; u64 g = gcdu(ma, mb); if (g != 1) { if (no) setCong(r, g, (ra + rb) % g); else if (isPow2(g)) setCong(r, g, (ra + rb)); } }
    else { u64 g = gcdu(ma, mb); if (isPow2(g) && g > 1) setCong(r, g, ra + rb); }
    if (no) { u32 f1 = factsPol(a, 1), f2 = factsPol(b, 1); if (f1 || f2) r.ext = extFacts(factsUnion(f1, f2), 1); }
    // linear symbolic part
    { const Ext &x = gExts[a.ext], &y = gExts[b.ext]; u32 sm = 0; i64 k = 0, c = 0; if (x.sym && b.lo == b.hi) { sm = x.sym; k = x.symk; c = x.symc + sx(b.lo, w); } else if (y.sym && a.lo == a.hi) { sm = y.sym; k = y.symk; c = y.symc + sx(a.lo, w); } else if (x.sym && x.sym == y.sym) { sm = x.sym; k = x.symk + y.symk; c = x.symc + y.symc; }
      if (sm) { Ext e; e.sym = sm; e.symk = k; e.symc = c; i128 l, h; symRange(s, e, l, h); if (l >= 0 && h <= (i128)(u128)M) { r.ext = internExt(e); r.lo = (u64)l; r.hi = (u64)h; r.wide = 0; } } }
    return r; }
  case Instruction::Sub: {
    if (b.lo == b.hi && b.lo == 0) { V t = a0; t.label = lab; return t; }
    if (a.id && a.id == b.id && a.idw == b.idw) return mkC(0, lab);
    i128 lo = (i128)(u128)a.lo - (i128)(u128)b.hi, hi = (i128)(u128)a.hi - (i128)(u128)b.lo;
    if (lo >= 0) { r.lo = (u64)lo; r.hi = (u64)hi; } else if (hi < 0) { r.lo = (u64)lo & M; r.hi = (u64)hi & M; }
    { u64 g = gcdu(ma, mb); if (g > 1 && (lo >= 0 || isPow2(g))) setCong(r, g, ra % g + g - rb % g); }
    r.wide = ((a.wide & W_LO) | ((b.wide & W_HI) ? W_LO : 0)) | ((a.wide & W_HI) | ((b.wide & W_LO) ? W_HI : 0));
    if (a.id && b.id && a.idw == b.idw && !a.ext && !b.ext) { r.obj = a.id; r.pad2 = b.id; r.idw = a.idw; }
    { const Ext &x = gExts[a.ext], &y = gExts[b.ext]; u32 sm = 0; i64 k = 0, c = 0; if (x.sym && b.lo == b.hi) { sm = x.sym; k = x.symk; c = x.symc - sx(b.lo, w); } else if (y.sym && a.lo == a.hi) { sm = y.sym; k = -y.symk; c = sx(a.lo, w) - y.symc; } else if (x.sym && x.sym == y.sym) { sm = x.sym; k = x.symk - y.symk; c = x.symc - y.symc; if (!k) return mkC((u64)c & M, lab); }
      if (sm) { Ext e; e.sym = sm; e.symk = k; e.symc = c; i128 l, h; symRange(s, e, l, h); if (l >= 0 && h <= (i128)(u128)M) { r.ext = internExt(e); r.lo = (u64)l; r.hi = (u64)h; r.wide = 0; } } }
    return r; }
  case Instruction::Mul: {
    if (b.lo == b.hi && b.lo == 1) { V t = a0; t.label = lab; return t; } if (a.lo == a.hi && a.lo == 1) { V t = b0; t.label = lab; return t; }
    if ((b.lo == b.hi && b.lo == 0) || (a.lo == a.hi && a.lo == 0)) return mkC(0, lab);
    u128 hi = (u128)a.hi * b.hi; if (hi <= M) { r.lo = a.lo * b.lo; r.hi = (u64)hi; 
      if (b.lo == b.hi) { u64 m2 = (ma == 0 ? 0 : ma) * b.lo; setCong(r, m2, (ra % (ma ? ma : 1)) * b.lo); } else if (a.lo == a.hi) { u64 m2 = mb * a.lo; setCong(r, m2, (rb % (mb ? mb : 1)) * a.lo); } }
    { const Ext &x = gExts[a.ext], &y = gExts[b.ext]; u32 sm = 0; i64 k = 0, c = 0; if (x.sym && b.lo == b.hi) { sm = x.sym; k = x.symk * (i64)b.lo; c = x.symc * (i64)b.lo; } else if (y.sym && a.lo == a.hi) { sm = y.sym; k = y.symk * (i64)a.lo; c = y.symc * (i64)a.lo; }
      if (sm) { Ext e; e.sym = sm; e.symk = k; e.symc = c; i128 l, h; symRange(s, e, l, h); if (l >= 0 && h <= (i128)(u128)M) { r.ext = internExt(e); r.lo = (u64)l; r.hi = (u64)h; r.wide = 0; } } }
    return r; }
  case Instruction::SDiv: if (a.hi > (M >> 1) || b.hi > (M >> 1)) return r; // fallthrough
  case Instruction::UDiv: { if (b.lo == 0) { if (b.hi == 0) return r; r.hi = a.hi; r.lo = 0; return r; } r.lo = a.lo / b.hi; r.hi = a.hi / b.lo; 
      { const Ext& x = gExts[a.ext]; if (x.sym && b.lo == b.hi && b.lo && x.symk % (i64)b.lo == 0 && x.symc % (i64)b.lo == 0) { Ext e; e.sym = x.sym; e.symk = x.symk / (i64)b.lo; e.symc = x.symc / (i64)b.lo; r.ext = internExt(e); } }
      return r; }
  case Instruction::SRem: if (a.hi > (M >> 1) || b.hi > (M >> 1)) return r; // fallthrough
  case Instruction::URem: { if (b.lo == 0) return r; if (a.hi < b.lo) { V t = a; t.label = lab; return t; } r.wide = 0; r.lo = 0; r.hi = b.hi - 1; if (b.lo == b.hi) { if (ma > 1 && ma % b.lo == 0) return mkC(ra % b.lo, lab); if (a.lo / b.lo == a.hi / b.lo) { r.lo = a.lo % b.lo; r.hi = a.hi % b.lo; } } return r; }
  case Instruction::And: { r.wide = 0;
      if (b.lo == b.hi || a.lo == a.hi) { const V& x = b.lo == b.hi ? a : b; u64 m = b.lo == b.hi ? b.lo : a.lo; 
        if (m == 0) return mkC(0, lab); if (isPow2(m + 1) && x.hi <= m) { V t = b.lo == b.hi ? a0 : b0; t.label = lab; return t; } if (m == M) { V t = b.lo == b.hi ? a0 : b0; t.label = lab; return t; }
        r.lo = 0; r.hi = std::min(x.hi, m); r.wide = 0; u64 nm = (~m) & M; if (isPow2(nm + 1) ) { r.lo = x.lo & m; r.hi = x.hi & m; setCong(r, nm + 1, 0); r.wide = x.wide; }
        u64 mx, rx; cong(x, mx, rx); if (isPow2(m + 1) && mx > 1 && mx % (m + 1) == 0) return mkC(rx & m, lab);
      } else { r.lo = 0; r.hi = std::min(a.hi, b.hi); }
      u32 f1 = factsPol(a, 2), f2 = factsPol(b, 2); if (f1 || f2) r.ext = extFacts(factsUnion(f1, f2), 2);
      else if (w == 1 || (a.hi <= 1 && b.hi <= 1)) {}
      return r; }
  case Instruction::Or: { if (b.lo == b.hi && b.lo == 0) { V t = a0; t.label = lab; return t; } if (a.lo == a.hi && a.lo == 0) { V t = b0; t.label = lab; return t; }
      r.lo = std::max(a.lo, b.lo); r.hi = onesUpTo(a.hi | b.hi); r.wide = 0; u32 f1 = factsPol(a, 1), f2 = factsPol(b, 1); if (f1 || f2) r.ext = extFacts(factsUnion(f1, f2), 1); return r; }
  case Instruction::Xor: { if (b.lo == b.hi && b.lo == 0) { V t = a0; t.label = lab; return t; } if (a.lo == a.hi && a.lo == 0) { V t = b0; t.label = lab; return t; }
      if (a.id && a.id == b.id && a.idw == b.idw) return mkC(0, lab);
      if (terms && a.id && b.id && a.idw == 1 && b.idw == 1) { u32 t = xorTermId(a.id, b.id); if (!t) return mkC(0, lab); r.lo = 0; r.hi = 255; r.wide = 0; r.id = t; r.idw = 1; return r; }
      r.lo = 0; r.hi = onesUpTo(a.hi | b.hi); r.wide = 0; if (b.lo == b.hi && b.lo == M) { r.lo = M - a.hi; r.hi = M - a.lo; }
      if (b.lo == b.hi && b.lo == 1 && a.hi <= 1) { u32 f = factsPol(a, 1); if (f) r.ext = extFacts(f, 2); else { f = factsPol(a, 2); if (f) r.ext = extFacts(f, 1); } }
      if (a.id && b.id && a.idw == b.idw && a.lo != a.hi && b.lo != b.hi) { r.obj = a.id; r.pad2 = b.id; r.idw = a.idw; r.pad = 1; }
      return r; }
  case Instruction::Shl: { if (b.lo == b.hi) { if (b.lo >= w) return r; if (b.lo == 0) { V t = a0; t.label = lab; return t; } u128 hi = (u128)a.hi << b.lo; if (hi <= M) { r.lo = a.lo << b.lo; r.hi = (u64)hi; setCong(r, b.lo < 30 ? (ma > 1 ? ma << b.lo : 1ull << b.lo) : 1, ma > 1 ? ra << b.lo : 0); } else if (b.lo < 31) setCong(r, 1ull << b.lo, 0);
        const Ext& x = gExts[a.ext]; if (x.sym && b.lo < 32) { Ext e; e.sym = x.sym; e.symk = x.symk << b.lo; e.symc = x.symc << b.lo; i128 l, h; symRange(s, e, l, h); if (l >= 0 && h <= (i128)(u128)M) { r.ext = internExt(e); r.lo = (u64)l; r.hi = (u64)h; r.wide = 0; } } 
        else if (hi <= M) { u32 f = factsPol(a, 1); if (f) r.ext = extFacts(f, 1); }
        return r; }
      if (b.hi < w) { u128 hi = (u128)a.hi << b.hi; if (hi <= M) { r.lo = a.lo << b.lo; r.hi = (u64)hi; } } return r; }
  case Instruction::AShr: if (a.hi > (M >> 1)) return r; // fallthrough
  case Instruction::LShr: { if (b.lo >= w) return r; r.lo = b.hi < w ? a.lo >> b.hi : 0; r.hi = a.hi >> b.lo; 
      if (b.lo == b.hi) { const Ext& x = gExts[a.ext]; i64 d = 1ll << std::min<u64>(b.lo, 62); if (x.sym && x.symk % d == 0 && x.symc % d == 0) { Ext e; e.sym = x.sym; e.symk = x.symk / d; e.symc = x.symc / d; r.ext = internExt(e); } if (b.lo == 0) { V t = a0; t.label = lab; return t; } }
      return r; }
  }
  return r;
}

V Interp::icmp(State& s, unsigned pred, unsigned w, const V& a0, const V& b0, bool ptr) {
  u32 lab = labComb(a0.label, b0.label);
  auto B = [&](bool x) { return mkC(x, lab); };
  V top = mkRange(0, 1, lab);
  bool eqp = pred == CmpInst::ICMP_EQ, nep = pred == CmpInst::ICMP_NE;
  if (a0.k != K_INT || b0.k != K_INT) {
    if (a0.k == K_INT && b0.k == K_INT) {}
    auto isNull = [](const V& v) { return v.k == K_PTR && v.obj == 0 && v.lo == 0 && v.hi == 0; };
    if (a0.k == K_INT && a0.lo == 0 && a0.hi == 0) return icmp(s, pred, w, mkNull(), b0, true); if (b0.k == K_INT && b0.lo == 0 && b0.hi == 0) return icmp(s, pred, w, a0, mkNull(), true);
    if (isNull(a0) || isNull(b0)) { const V& o = isNull(a0) ? b0 : a0; if (isNull(o)) { return B(eqp || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SLE || pred == CmpInst::ICMP_SGE); } if (o.k == K_PTR && o.obj && gObjInfo[o.obj].maybeNull && o.lo == 0 && o.hi == 0) { const Ext& z = gExts[gObjInfo[o.obj].sizeExt]; if (z.sym && s.symR[z.sym].first == 0) return top; } if (o.k == K_PTR && o.obj) { if (eqp) return B(false); if (nep) return B(true); bool oIsB = isNull(a0); if (pred == CmpInst::ICMP_ULT) return B(oIsB); if (pred == CmpInst::ICMP_UGT) return B(!oIsB); } if (o.k == K_FN) { if (eqp) return B(false); if (nep) return B(true); } return top; }
    if (a0.k == K_PTR && b0.k == K_PTR && a0.obj == b0.obj) { V x = mkRange(a0.lo + (1ull << 62), a0.hi + (1ull << 62), a0.label), y = mkRange(b0.lo + (1ull << 62), b0.hi + (1ull << 62), b0.label); x.wide = a0.wide; y.wide = b0.wide; return icmp(s, pred, 64, x, y, false); }
    if (a0.k == K_PTR && b0.k == K_PTR) { if (eqp) return B(false); if (nep) return B(true); }
    return top; }
  if (w > 64) return top;
  V a = a0, b = b0; if (a.ext) norm(s, a, w); if (b.ext) norm(s, b, w);
  const u64 M = maskW(w);
  // same linear symbol
  const Ext &x = gExts[a.ext], &y = gExts[b.ext];
  if (x.sym && x.sym == y.sym && x.symk == y.symk && pred >= CmpInst::ICMP_EQ && pred <= CmpInst::ICMP_ULE) { i64 p = x.symc, q = y.symc; switch (pred) { case CmpInst::ICMP_EQ: return B(p == q); case CmpInst::ICMP_NE: return B(p != q); case CmpInst::ICMP_UGT: return B(p > q); case CmpInst::ICMP_UGE: return B(p >= q); case CmpInst::ICMP_ULT: return B(p < q); case CmpInst::ICMP_ULE: return B(p <= q); } }
  switch (pred) {
  case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
    bool isEq = eqp;
    if (a.lo == a.hi && b.lo == b.hi) return B((a.lo == b.lo) == isEq);
    if (a.hi < b.lo || b.hi < a.lo) return B(!isEq);
    if (a.id && a.id == b.id && a.idw == b.idw) return B(isEq);
    { u64 ma, ra, mb, rb; cong(a, ma, ra); cong(b, mb, rb); u64 g = gcdu(ma, mb); if (g > 1 && ra % g != rb % g) return B(!isEq); }
    V r = top;
    const V* v = nullptr; u64 c = 0; if (b.lo == b.hi) { v = &a; c = b.lo; } else if (a.lo == a.hi) { v = &b; c = a.lo; }
    if (v) {
      u32 f1 = factsPol(*v, 1), f2 = factsPol(*v, 2); bool flip = false;
      if (c == 0) {} else if (c == 1 && v->hi <= 1) flip = true; else { std::vector<Cond> X; condsOf(*v, w, X); u32 f = condFacts(X, c, w); return isEq ? boolFacts(r, f, 0) : boolFacts(r, 0, f); }
      bool trueIffZero = isEq != flip; // result nonzero <=> v == 0
      if (f1 && f2) return trueIffZero ? boolFacts(r, f1, f2) : boolFacts(r, f2, f1);
      if (trueIffZero) { if (f1) r.ext = extFacts(f1, 2); else if (f2) r.ext = extFacts(f2, 1); else if (v->id && v->idw == 1) r.ext = extFacts(internFacts({{F_NZ, v->id, 0}}), 1); }
      else { if (f2) r.ext = extFacts(f2, 2); else if (f1) r.ext = extFacts(f1, 1); else if (v->id && v->idw == 1) r.ext = extFacts(internFacts({{F_NZ, v->id, 0}}), 2); }
      return r; }
    if (a.id && b.id && a.idw == b.idw) { V d; d.obj = a.id; d.pad2 = b.id; d.idw = a.idw; r.ext = extFacts(factsPol(d, 1), isEq ? 2 : 1); }
    return r; }
  case CmpInst::ICMP_ULT: if (a.hi < b.lo) return B(true); if (a.lo >= b.hi) return B(false); if (b.lo == b.hi && b.lo == 1) return icmp(s, CmpInst::ICMP_EQ, w, a0, mkC(0, b0.label), false); if (a.lo == a.hi && a.lo == 0) return icmp(s, CmpInst::ICMP_NE, w, b0, mkC(0, a0.label), false); return top;
  case CmpInst::ICMP_ULE: if (a.hi <= b.lo) return B(true); if (a.lo > b.hi) return B(false); if (b.lo == b.hi && b.lo == 0) return icmp(s, CmpInst::ICMP_EQ, w, a0, b0, false); return top;
  case CmpInst::ICMP_UGT: return icmp(s, CmpInst::ICMP_ULT, w, b0, a0, ptr);
  case CmpInst::ICMP_UGE: return icmp(s, CmpInst::ICMP_ULE, w, b0, a0, ptr);
  default: break; }
  // signed
  u64 h = M >> 1; bool aP = a.hi <= h, aN = a.lo > h, bP = b.hi <= h, bN = b.lo > h;
  if ((aP && bP) || (aN && bN)) { unsigned up = pred == CmpInst::ICMP_SLT ? CmpInst::ICMP_ULT : pred == CmpInst::ICMP_SLE ? CmpInst::ICMP_ULE : pred == CmpInst::ICMP_SGT ? CmpInst::ICMP_UGT : CmpInst::ICMP_UGE; return icmp(s, up, w, a0, b0, ptr); }
  if (aP && bN) return B(pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_SGE);
  if (aN && bP) return B(pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SLE);
  if ((a.ext || a.obj) && b.lo == b.hi && ((b.lo == 0 && (pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SGE)) || (b.lo == M && (pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_SLE)))) { std::vector<Cond> X; condsOf(a, w, X); u32 on = 0, off = 0; for (auto& q : X) if ((q.mask >> (w - 1)) & 1) { if (q.k == 1) on = factsUnion(on, q.f); else if (q.k == 2) off = factsUnion(off, q.f); } 
    return pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SLE ? boolFacts(top, on, off) : boolFacts(top, off, on); }
  return top;
}
