#pragma once
#include <set>
#include <map>
#include "prog.h"
#include <functional>
extern std::vector<ObjInfo> gObjInfo;

struct Cur { State st; std::vector<V> regs; std::vector<u32> allocas; };
struct Out { Cur c; V ret; };                     // function-level outcome
struct PathOut { int stop; Cur c; V ret; };       // stop: -1 return, >=0 block, <=-2: terminator of block (-2-b)
struct Stop { int kind; int block; };             // kind 0: block entry, 1: terminator

struct Frame { Fn* f; std::map<int, int> nest; Frame* up; const Inst* site; int groups = 0; };

struct Report { std::string kind, where, msg, stack; u32 label = 0; bool deferred = false; u64 count = 1; };
struct IdRange { u32 base, len; u8 kind; u32 rec; u32 off; };  // kind: 1 input, 2 hash out, 3 prg out, 4 rng, 5 owf, 6 keystream
enum { IDK_INPUT = 1, IDK_HASH, IDK_PRG, IDK_RNG, IDK_OWF, IDK_KS, IDK_SIGOUT };
struct HashRec { u32 rate, suffix; std::vector<Ref<Transcript>> alts; u32 label; bool unbounded = false, muted = false; std::string where, stack; std::map<u32, int> sqAtom; int atom = -1; u32 squeezed = 0; std::vector<std::array<u32,3>> sq; };
struct PrgRec { std::vector<Seg> key, iv; u32 keyLabel, ivLabel, outlen, outBase, keybytes; bool muted = false, exact = true; std::string where, stack; };
struct CipherCtx { std::string mode; u32 keybytes = 0; std::vector<Seg> key, iv; u32 keyLabel = 0; u64 pos = 0; bool init = false; };
struct AesRec { std::vector<V> in; std::string where; u32 rounds, words; bool muted = false; };
struct SboxRec { u32 id, label; u64 lo, hi; std::string where; u32 fresh; };

struct Interp {
  int narrowAtom = -1; std::set<const void*> narrowSites;
  Prog& P; llvm::json::Object cfg;
  std::map<std::string, std::string> stubs; std::vector<std::pair<std::string, std::string>> stubPats;
  u32 forceId = 0, zfLabel = 0; int zfAtom = -1; u64 zfArith = 0; // what-if run: the byte with this value number is zero
  bool evpFail = false, disjunctive = false, logEv = false, logCopy = false, memoOn = true; int unrollCalls = 10, unrollLeaf = 70;
  u32 nextId = 1, nextObj = 1; u64 ver = 1, steps = 0, forks = 0, joins = 0, fixpoints = 0, accesses = 0, branches = 0, undecidedBranches = 0, callsN = 0, divs = 0; u64 stepLimit = 60000000000ull;
  int muted = 0; bool aborted = false; std::string abortMsg;
  std::vector<Report> reports; std::map<std::string, int> repIdx;
  std::vector<IdRange> ids; std::vector<HashRec> hrecs; std::vector<PrgRec> prgs; std::vector<CipherCtx> ciphers; std::vector<AesRec> aesRecs; std::vector<SboxRec> sboxes; std::set<std::string> externals, fnsSeen, allocSites;
  std::vector<std::string> symNames; std::set<u32> forceZero; std::map<int, u32> atomAbs; // challenge atom -> label absorbed
  std::set<const llvm::Instruction*> memSites, brSites; std::set<std::string> globalsWritten; std::set<u32> consumedRng;
  std::vector<u32> secretRecs; u32 objErr = 0; u32 errnoObj = 0; u32 atomPrg, atomHash, atomRng, atomOwf, atomSig; std::map<std::string,u64> counters; u32 maxEvents = 0;
  Frame* curFrame = nullptr; const Inst* curInst = nullptr;
  V mret; Atoms ctMask; std::vector<u8> labFlag; std::map<std::pair<const char*, const void*>, int> repCache; bool topFree = false;
  Interp(Prog& p) : P(p) {}
  // infrastructure
  std::string stackStr(); std::string here();
  void report(const char* kind, const std::string& msg, u32 label = 0, bool deferred = false, const std::string& whereOverride = "");
  u32 fresh(u32 n) { u32 r = nextId; nextId += n; return r; }
  // Herbrand mode ("terms": true): equal oracle inputs give equal output identities, and the XOR of bytes is a term of its own.
  // A GF(2) combination of term bytes is represented by the XOR of fixed 128-bit images of its members.
  struct K128 { u64 a = 0, b = 0; bool operator==(const K128& o) const { return a == o.a && b == o.b; } };
  struct K128H { size_t operator()(const K128& k) const { return k.a; } };
  struct Oracle { bool prg; std::vector<u32> in; u32 base, len; };   // in: identities of the secret part (constants 0)
  bool ub = false; u64 alignChecks = 0, signedOps = 0, reachChecks = 0; void alignUse(const V& p, u32 al); void overflowUse(Cur& c, const Inst& x, V a, V b);
  bool terms = false; std::unordered_map<K128, u32, K128H> xorIds; std::unordered_map<u32, std::pair<K128, bool>> xorTerm; std::unordered_map<K128, u32, K128H> oracleIdx; std::vector<Oracle> oracles;
  K128 termKey(u32 id, u64 c, bool& exact); u32 xorTermId(u32 x, u32 y); bool isNamed(u32 id) const; void closure(std::vector<u8>& known);
  bool termIn(const std::vector<Seg>& v, K128& k, std::vector<u32>* in); u32 oracleOut(const K128& k, u32 len, u8 kind, u32 rec, u32 off, bool prg, const std::vector<u32>& in);
  u32 newObj(State& s, ObjInfo inf); Obj* mutObj(State& s, u32 id);
  void event(State& s, const std::string& j);
  // values
  void norm(State& s, V& v, unsigned w); void symRange(State& s, const Ext& e, __int128& lo, __int128& hi);
  V bin(State& s, unsigned op, unsigned w, const V& a, const V& b);
  V binCore(State& s, unsigned op, unsigned w, const V& a, const V& b);
  V castCore(const V& a, unsigned from, unsigned to, int kind);
  u32 verdictBase = 0, verdictLen = 0; // equality of these bytes with others is public
  V icmp(State& s, unsigned pred, unsigned w, const V& a, const V& b, bool ptr);
  V castInt(const V& a, unsigned from, unsigned to, int kind);
  // memory
  void slack(const ObjInfo& inf, i64 lo, i64 hi, u64 nlo, u64 nhi, bool wide, const char* what);
  bool resolve(State& s, const V& p, u64 n, bool write, i64& lo, i64& hi, Obj*& o, const char* what);
  V loadV(State& s, const V& p, const Ty& t); void storeV(State& s, const V& p, const V& v, const Ty& t, bool vol);
  void killCells(Obj* o, u64 off, u64 n);
  void getByte(const Obj* o, u64 off, u8& lo, u8& hi, u32& lab, u32& id) const;
  void putByte(Obj* o, u64 off, u8 lo, u8 hi, u32 lab, u32 id);
  Page* page(Obj* o, u64 off);
  void summary(const Obj* o, i64 lo, i64 hiEx, u8& blo, u8& bhi, u32& lab);
  void weakRange(Obj* o, i64 lo, i64 hiEx, u8 blo, u8 bhi, u32 lab, bool maybe = false);
  void copyMem(State& s, const V& d, const V& src, const V& n, bool move); void setMem(State& s, const V& d, const V& val, const V& n, bool secure);
  void writeFresh(State& s, const V& p, u64 n, u32 label, u32 idBase, const char* what);
  std::vector<Seg> readSegs(State& s, const V& p, const V& n, const char* what, u32& label);
  void absorb(State& s, u64 key, const V& p, const V& n);
  void killHctx(State& s, u32 obj);
  // control
  void run(Frame& F, Cur c, int bb, int ip, const std::vector<Stop>& stops, std::vector<PathOut>& outs);
  bool edge(Frame& F, Cur& c, int from, int to, const std::vector<Stop>& stops, std::vector<PathOut>& outs);
  std::vector<Out> call(Fn* f, Cur c, std::vector<V> args, const Inst* site);
  // An array filled element by element in a loop whose arms differ in data: which elements are set may be correlated with which are read.
  bool loopActive(Frame& F, int bb) { for (Frame* g = &F;; g = g->up) { if (bb >= 0 && g->f->bbs[bb].inLoop) return true; if (!g->up || !g->site) return false; bb = g->site->bb; } }
  const std::vector<u32>* joinLocals = nullptr;
  bool joinState(State& a, const State& b, bool widen); bool joinCur(Cur& a, const Cur& b, Fn* f, const std::vector<u64>* live, bool widen);
  void clearDead(Cur& c, const std::vector<u64>& live);
  bool refineCond(Frame& F, Cur& c, int reg, bool truth, int depth); bool refineRange(Frame& F, Cur& c, int op, u64 lo, u64 hi, unsigned w, int depth);
  bool refineCong(Frame& F, Cur& c, int op, u32 m, u32 r); bool takeArm(Frame& F, Cur& c, const Inst& br, int arm);
  int model(Fn* f, Cur& c, std::vector<V>& a, const Inst* site, std::vector<Out>& outs);
  void enter(Frame& F, Cur& c, const Inst& br, int arm, const std::vector<Stop>& stops, std::vector<PathOut>& outs);
  int fork(Frame& F, Cur& c, const Inst& br, const std::vector<Stop>& stops, std::vector<PathOut>& outs);
  void fixpoint(Frame& F, Cur& c, const Inst& br, const std::vector<Stop>& inner, std::vector<PathOut>& o);
  std::vector<PathOut> groupJoin(Frame& F, std::vector<PathOut>& v, const std::vector<u64>* live, size_t cap);
  bool joinable(const Cur& a, const Cur& b, const std::vector<u64>* live); void phi(Cur& c, const std::vector<PhiMove>& m);
  bool joinObj(State& s, u32 id, const Obj* b, bool widen); std::string objName(u32 id); void leave(Cur& c); void loopKill(State& s, u32 id);
  std::map<std::string, llvm::json::Object> stubCfg; std::unordered_map<int, const llvm::json::Object*> stubOf; std::map<u32, u32> cipherOf; u32 sboxIdx = 0;
  int modelId(Fn* f); V memcmpModel(State& s, const V& a, const V& b, const V& n, bool ctFlag, u32 extraLabel); std::string segStr(const std::vector<Seg>& v); std::string segStr(const Seg& g); std::string idName(u32 id);
  void hashFinal(State& s, u64 key); void hashSqueeze(State& s, u64 key, const V& dst, const V& bits); HCtx* hctxMut(State& s, u64 key); V linJson(const V&);
  u32 heapAlloc(Cur& c, const V& n, bool zero, const Inst* site, const char* fn); void freeModel(Cur& c, const V& p, const char* what);
  u32 copyAtom(u32 lab, u32 id, u32 own);
  bool isPure(Fn* f); bool accelLoop(Frame& F, Cur& c, int h); bool addFacts(Cur& c, u32 facts); void checkUse(const V& v, const char* what); void initUse(u32 l, const char* what) { if (labUninit(l)) checkUse(mkTop(8, labelAtom(A_UNINIT)), what); else if (l && gLabels[l].may.test(A_CONDUN)) checkUse(mkTop(8, labelAtom(A_CONDUN)), what); else if (l && gLabels[l].may.test(A_MAYUN)) checkUse(mkTop(8, labelAtom(A_MAYUN)), what); }
};
u32 factsPol(const V& v, int pol);
void orNeg(const V& x, unsigned w, V& r);
