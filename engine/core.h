// Core data structures of the whole-program abstract interpreter.
//
// Values:  unsigned intervals x congruence x dataflow labels x byte identity
// Labels:  pair (may, must) of atom sets; `may` over-approximates the sources a
//          value can depend on, `must` under-approximates the sources it depends
//          on along every path.
// Memory:  copy-on-write byte-granular objects; every byte has an interval, a
//          label and an identity (which input byte / oracle output byte it is a
//          verbatim copy of).
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- refcounting
struct RC { u32 rc = 0; };
template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* q) : p(q) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref& operator=(Ref&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  T* mut() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; --p->rc; p = n; } return p; }
};

// ------------------------------------------------------------- interned labels
struct Atoms { u64 w[2] = {0, 0};
  bool operator==(const Atoms& o) const { return w[0] == o.w[0] && w[1] == o.w[1]; }
  bool test(int i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
  void clr(int i) { w[i >> 6] &= ~(1ull << (i & 63)); }
  Atoms operator|(const Atoms& o) const { Atoms r; r.w[0] = w[0] | o.w[0]; r.w[1] = w[1] | o.w[1]; return r; }
  Atoms operator&(const Atoms& o) const { Atoms r; r.w[0] = w[0] & o.w[0]; r.w[1] = w[1] & o.w[1]; return r; }
  bool any() const { return w[0] | w[1]; }
};
struct LabelBits { Atoms may, must;
  bool operator==(const LabelBits& o) const { return may == o.may && must == o.must; } };
struct LabelHash { size_t operator()(const LabelBits& l) const {
  u64 h = l.may.w[0] * 0x9E3779B97F4A7C15ull; h ^= (h >> 29); h += l.may.w[1] * 0xC2B2AE3D27D4EB4Full;
  h ^= l.must.w[0] * 0x165667B19E3779F9ull + (h << 6); h ^= (h >> 31); h += l.must.w[1] * 0x27D4EB2F165667C5ull; return h ^ (h >> 32); } };
extern std::vector<LabelBits> gLabels;
u32 internLabel(const LabelBits& b);
enum { A_UNINIT = 0, A_MAYUN = 1, A_CONDUN = 2 };   // A_CONDUN: element of a loop-initialised object that some path inside the loop leaves out
   // A_MAYUN: initialised or not depending on a data-dependent trip count
extern bool gLenient, gLoopJoin, gCondRead;   // gCondRead: executing an arm of a branch inside an active loop
int atomIndex(const std::string& n);          // creates
extern std::vector<std::string> gAtomNames;
u32 labelAtom(int a);                          // label with a single atom (may+must)

struct PairCache {                             // tiny direct-mapped cache for binary ops on interned ids
  struct E { u32 a = ~0u, b = ~0u, r = 0; };
  std::vector<E> t = std::vector<E>(4096);
  E& slot(u32 a, u32 b) { return t[(a * 2654435761u ^ b * 40503u) & 4095]; }
};
extern PairCache cComb, cJoin, cWeak;
u32 labCombSlow(u32, u32); u32 labJoinSlow(u32, u32); u32 labJoinLenient(u32, u32, int atom = A_MAYUN); u32 labImprecise(u32); u32 labWeakSlow(u32, u32);
static inline u32 labComb(u32 a, u32 b) {
  if (a == b || b == 0) return a; if (a == 0) return b;
  PairCache::E& e = cComb.slot(a, b); if (e.a == a && e.b == b) return e.r;
  u32 r = labCombSlow(a, b); e = {a, b, r}; return r; }
static inline u32 labJoin(u32 a, u32 b) {
  if (a == b) return a; if (gLenient) return labJoinLenient(a, b);
  PairCache::E& e = cJoin.slot(a, b); if (e.a == a && e.b == b) return e.r;
  u32 r = labJoinSlow(a, b); e = {a, b, r}; return r; }
static inline u32 labWeak(u32 old, u32 nw) {
  if (old == nw) return old;
  PairCache::E& e = cWeak.slot(old, nw); if (e.a == old && e.b == nw) return e.r;
  u32 r = labWeakSlow(old, nw); e = {old, nw, r}; return r; }
static inline u32 labRead(u32 l) { return gCondRead && l && gLabels[l].may.test(A_CONDUN) ? labImprecise(l) : l; }
static inline bool labUninit(u32 l) { return l && gLabels[l].may.test(A_UNINIT); }

// -------------------------------------------------------------- lanes (vectors)
extern std::vector<std::vector<u32>> gLanes;
u32 internLanes(const std::vector<u32>& v);

// ------------------------------------------------------------------ facts / ext
// Fact kinds: EQ(idA,idB): byte idA equals byte idB.  NZ(id): byte id is nonzero.
struct Fact { u8 k; u32 a, b;
  bool operator<(const Fact& o) const { return std::tie(k, a, b) < std::tie(o.k, o.a, o.b); }
  bool operator==(const Fact& o) const { return k == o.k && a == o.a && b == o.b; } };
enum { F_EQ = 1, F_NZ = 2, F_PRED = 3 };
extern std::vector<std::vector<Fact>> gFactSets;
u32 internFacts(std::vector<Fact> v);
u32 factsUnion(u32 a, u32 b);
u32 factsInter(u32 a, u32 b);

// Bit conditions of a value: 0: all bits of the mask zero => facts; 1: some bit of the mask one => facts; 2: some bit of the mask zero => facts.
struct Cond { u8 k; u64 mask; u32 f; bool operator<(const Cond& o) const { return std::tie(k, mask, f) < std::tie(o.k, o.mask, o.f); } };
extern std::vector<std::vector<Cond>> gConds;
u32 internConds(std::vector<Cond> v);
u32 condsJoin(u32 a, u32 b);
u32 condsJoinConst(u32 a, u64 c);
struct Ext {           // rare attributes of an integer value
  u32 sym = 0;         // symbolic input; value = symk*sym + symc
  i64 symk = 0, symc = 0;
  u32 facts = 0; u8 pol = 0; u32 cx = 0;  // cx: bit conditions; pol 1: value==0 => facts ; pol 2: value!=0 => facts
  bool operator<(const Ext& o) const { return std::tie(sym, symk, symc, facts, pol, cx) < std::tie(o.sym, o.symk, o.symc, o.facts, o.pol, o.cx); }
};
extern std::vector<Ext> gExts;
u32 internExt(const Ext& e);

// ------------------------------------------------------------------------ value
enum Kind : u8 { K_INT, K_PTR, K_FN, K_VEC, K_AGG, K_TOPPTR };
enum { W_LO = 1, W_HI = 2 };
// K_INT: obj/pad2 (when nonzero): value is zero iff bytes obj.. and pad2.. (idw of them) are equal
struct V {
  Kind k = K_INT; u8 wide = 0; u8 idw = 0; u8 pad = 0;
  u32 label = 0; u32 id = 0; u32 obj = 0;      // obj: object / function / lane set / aggregate index
  u64 lo = 0, hi = 0;                          // K_INT unsigned interval; K_PTR signed offset interval
  u32 cm = 0, cr = 0;                          // congruence value = cr (mod cm), cm<=1: none
  u32 ext = 0, pad2 = 0;
  bool isC() const { return k == K_INT && lo == hi; }
};
static_assert(sizeof(V) == 48, "V");
static inline u64 maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline V mkC(u64 c, u32 label = 0) { V v; v.lo = v.hi = c; v.label = label; return v; }
static inline V mkTop(unsigned w, u32 label) { V v; v.lo = 0; v.hi = maskW(w); v.label = label; return v; }
static inline V mkRange(u64 lo, u64 hi, u32 label) { V v; v.lo = lo; v.hi = hi; v.label = label; return v; }
static inline V mkPtr(u32 obj, i64 off, u32 label = 0) { V v; v.k = K_PTR; v.obj = obj; v.lo = v.hi = (u64)off; v.label = label; return v; }
static inline V mkNull() { return mkPtr(0, 0); }
static inline V mkTopPtr(u32 label) { V v; v.k = K_TOPPTR; v.label = label; return v; }
bool sameV(const V& a, const V& b);
V joinV(const V& a, const V& b, bool widen);
extern std::vector<std::vector<V>> gAggs;

// ----------------------------------------------------------------------- memory
enum { PG = 128 };
struct Page : RC { u8 lo[PG], hi[PG]; u32 label[PG], id[PG];
  Page() {} Page(const Page& o) : RC() { memcpy(lo, o.lo, sizeof lo); memcpy(hi, o.hi, sizeof hi); memcpy(label, o.label, sizeof label); memcpy(id, o.id, sizeof id); } };
enum ObjKind : u8 { O_STACK, O_HEAP, O_GLOBAL, O_PARAM, O_CIPHER };
enum ObjState : u8 { S_ALIVE, S_FREED, S_MAYBE };
struct ObjInfo { ObjKind kind = O_STACK; bool readonly = false, watch = false, symbolic = false, maybeNull = false, constant = false; u64 size = 0, limit = 0; u32 sizeExt = 0; std::string name; const void* site = nullptr; u8 dlo = 0, dhi = 255; u32 dlabel = 0, dids = 0, align = 0; };
struct Obj : RC {                                  // immutable facts live in gObjInfo[id]
  ObjState st = S_ALIVE; bool touched = false, weakw = false; u8 dlo = 0, dhi = 255; u32 id = 0; u64 size = 0; u64 version = 0;
  u32 dlabel = 0, dids = 0, sumLabel = 0, aux = 0;  // default fill
  std::vector<Ref<Page>> pages;
  std::vector<std::pair<u32, V>> cells;            // structured values, sorted by offset; .second.pad = byte size
  Obj() {} Obj(const Obj& o) : RC() { st=o.st; touched=o.touched; weakw=o.weakw; dlo=o.dlo; dhi=o.dhi; id=o.id; size=o.size; version=o.version; dlabel=o.dlabel; dids=o.dids; sumLabel=o.sumLabel; aux=o.aux; pages=o.pages; cells=o.cells; }
};
struct Chunk : RC { Ref<Obj> o[64]; Chunk() {} Chunk(const Chunk& c) : RC() { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };
struct Node : RC { Ref<Chunk> c[64]; Node() {} Node(const Node& n) : RC() { for (int i = 0; i < 64; i++) c[i] = n.c[i]; } };
struct ObjTable {
  std::vector<Ref<Node>> top;
  Obj* get(u32 id) const { u32 t = id >> 12; if (t >= top.size() || !top[t]) return nullptr; Chunk* c = top[t]->c[(id >> 6) & 63].p; return c ? c->o[id & 63].p : nullptr; }
  Ref<Obj>& slot(u32 id) { u32 t = id >> 12; if (t >= top.size()) top.resize(t + 1); if (!top[t]) top[t] = Ref<Node>(new Node); Node* n = top[t].mut(); Ref<Chunk>& c = n->c[(id >> 6) & 63]; if (!c) c = Ref<Chunk>(new Chunk); return c.mut()->o[id & 63]; }
  Obj* mut(u32 id) { Ref<Obj>& r = slot(id); return r ? r.mut() : nullptr; }
  void clear(u32 id) { if (get(id)) slot(id) = Ref<Obj>(); }
};

// -------------------------------------------------------- hash / cipher modelling
struct Seg { u8 k = 0;             // 0 bytes by id, 1 constant byte, 2 anonymous, 3 symbolic region
  u32 id = 0; u32 len = 0; u32 label = 0; u32 val = 0; u32 obj = 0; u32 lenExt = 0, offExt = 0;
  bool operator==(const Seg& o) const { return k == o.k && id == o.id && len == o.len && label == o.label && val == o.val && obj == o.obj && lenExt == o.lenExt && offExt == o.offExt; } };
struct Transcript : RC { std::vector<Seg> segs; std::vector<std::pair<u64,u64>> symc;
  Transcript() {} Transcript(const Transcript& o) : RC(), segs(o.segs), symc(o.symc) {} };
struct HCtx : RC { u32 rate = 0, suffix = 0; u8 phase = 0; u32 squeezed = 0; u32 rec = 0, label = 0; bool unbounded = false; std::vector<Ref<Transcript>> alts;
  HCtx() {} HCtx(const HCtx& o) : RC(), rate(o.rate), suffix(o.suffix), phase(o.phase), squeezed(o.squeezed), rec(o.rec), label(o.label), unbounded(o.unbounded), alts(o.alts) {} };

struct Ev : RC { Ref<Ev> prev; std::string json; u32 n = 0; Ev() {} };

struct State {
  ObjTable objs;
  u32 facts = 0;
  std::vector<std::pair<u64, Ref<HCtx>>> hctx;      // key = obj<<32|off<<2|lane, sorted
  std::vector<std::pair<u64, u64>> symR;             // per symbol: range
  Ref<Ev> ev;
};
