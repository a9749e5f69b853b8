// Scenario driver: reads a bitcode file and a JSON scenario, interprets the entry abstractly, prints JSON facts.
#include "interp.h"
#include "llvm/Support/raw_ostream.h"
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef json::Object JO; typedef json::Array JA;

static void flatten(Interp& I, Obj* o, u64 off, const Constant* C) {
  const DataLayout& DL = I.P.M->getDataLayout(); Type* T = C->getType(); u64 n = DL.getTypeStoreSize(T);
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { for (u64 i = 0; i < n; i++) I.putByte(o, off + i, 0, 0, 0, 0); return; }
  if (isa<UndefValue>(C)) { for (u64 i = 0; i < n; i++) I.putByte(o, off + i, 0, 0, 0, 0); return; }
  if (auto* ci = dyn_cast<ConstantInt>(C)) { for (u64 i = 0; i < n; i++) { u8 b = i * 8 < ci->getBitWidth() ? (u8)ci->getValue().extractBitsAsZExtValue(std::min<unsigned>(8, ci->getBitWidth() - i * 8), i * 8) : 0; I.putByte(o, off + i, b, b, 0, 0); } return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL.getTypeAllocSize(cd->getElementType()); for (unsigned k = 0; k < cd->getNumElements(); k++) { if (cd->getElementType()->isIntegerTy()) { u64 v = cd->getElementAsInteger(k); for (u64 b = 0; b < es; b++) { u8 x = (v >> (8 * b)) & 255; I.putByte(o, off + k * es + b, x, x, 0, 0); } } else for (u64 b = 0; b < es; b++) I.putByte(o, off + k * es + b, 0, 255, 0, 0); } return; }
  if (auto* ca = dyn_cast<ConstantArray>(C)) { u64 es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned k = 0; k < ca->getNumOperands(); k++) flatten(I, o, off + k * es, ca->getOperand(k)); return; }
  if (auto* cv = dyn_cast<ConstantVector>(C)) { u64 es = DL.getTypeStoreSize(cv->getType()->getElementType()); for (unsigned k = 0; k < cv->getNumOperands(); k++) flatten(I, o, off + k * es, cv->getOperand(k)); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { const StructLayout* SL = DL.getStructLayout(cs->getType()); for (u64 i = 0; i < SL->getSizeInBytes(); i++) I.putByte(o, off + i, 0, 0, 0, 0); for (unsigned k = 0; k < cs->getNumOperands(); k++) flatten(I, o, off + SL->getElementOffset(k), cs->getOperand(k)); return; }
  if (T->isPointerTy()) { V v = I.P.constVal(C); v.pad = 8; o->cells.push_back({(u32)off, v}); std::sort(o->cells.begin(), o->cells.end(), [](const std::pair<u32, V>& a, const std::pair<u32, V>& b) { return a.first < b.first; }); return; }
  for (u64 i = 0; i < n; i++) I.putByte(o, off + i, 0, 255, 0, 0); }

static JA atomNames(const Atoms& a) { JA r; for (size_t i = 0; i < gAtomNames.size(); i++) if (a.test(i)) r.push_back(gAtomNames[i]); return r; }
static JO labJ(u32 l) { JO o; o["may"] = atomNames(gLabels[l].may); o["must"] = atomNames(gLabels[l].must); return o; }
static void die(const std::string& m) { fprintf(stderr, "absint: %s\n", m.c_str()); JO o; o["error"] = m; outs() << json::Value(std::move(o)) << "\n"; outs().flush(); exit(3); }

int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: absint module.bc scenario.json\n"); return 2; }
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl);
  Prog P; if (!P.load(argv[1])) return 2;
  auto mb = MemoryBuffer::getFileOrSTDIN(argv[2]); if (!mb) die("cannot read scenario");
  auto jv = json::parse((*mb)->getBuffer()); if (!jv) die("bad scenario JSON: " + toString(jv.takeError()));
  Interp I(P); I.cfg = *jv->getAsObject(); JO& cfg = I.cfg;
  I.atomPrg = atomIndex("PRG"); I.atomHash = atomIndex("HASH"); I.atomRng = atomIndex("RNG"); I.atomOwf = atomIndex("OWF"); I.atomSig = atomIndex("SIG");
  if (auto fz = cfg.getInteger("forceZero")) { I.forceId = (u32)*fz; I.zfAtom = atomIndex("ZF"); I.zfLabel = labelAtom(I.zfAtom); } I.evpFail = cfg.getBoolean("evpFail").value_or(false); I.ub = cfg.getBoolean("ub").value_or(false); I.terms = cfg.getBoolean("terms").value_or(false); I.disjunctive = cfg.getBoolean("disjunctive").value_or(false); I.logEv = cfg.getBoolean("logEv").value_or(false); I.logCopy = cfg.getBoolean("logCopy").value_or(false); I.memoOn = cfg.getBoolean("memo").value_or(true);
  I.unrollCalls = cfg.getInteger("unrollCalls").value_or(10); I.unrollLeaf = cfg.getInteger("unrollLeaf").value_or(70); if (auto s = cfg.getInteger("steps")) I.stepLimit = *s;
  if (auto* st = cfg.getObject("stubs")) for (auto& kv : *st) I.stubCfg[kv.first.str()] = *kv.second.getAsObject();
  State S; I.symNames.push_back(""); S.symR.push_back({0, 0}); std::map<std::string, u32> symId; 
  if (auto* sy = cfg.getArray("syms")) for (auto& v : *sy) { auto* o = v.getAsObject(); symId[o->getString("name")->str()] = I.symNames.size(); I.symNames.push_back(o->getString("name")->str()); S.symR.push_back({(u64)*o->getInteger("lo"), (u64)*o->getInteger("hi")}); }
  // globals: ids 1..n
  for (auto& g : P.globalList) { const GlobalVariable* G = g.first; ObjInfo inf; inf.kind = O_GLOBAL; inf.name = "@" + G->getName().str(); inf.constant = inf.readonly = G->isConstant(); inf.size = P.M->getDataLayout().getTypeAllocSize(G->getValueType()); inf.align = G->getPointerAlignment(P.M->getDataLayout()).value(); if (!G->hasInitializer()) { inf.dlo = 0; inf.dhi = 255; } u32 id = I.newObj(S, inf); if (id != g.second) die("global numbering"); }
  for (auto& g : P.globalList) if (g.first->hasInitializer()) flatten(I, I.mutObj(S, g.second), 0, g.first->getInitializer());
  // a global that is never written anywhere in the program behaves like a constant; writes are reported as violations by the checks
  for (auto& g : P.globalList) if (!g.first->isConstant() && g.first->hasInitializer()) { I.counters["mutable_globals"]++; }
  { ObjInfo inf; inf.kind = O_STACK; inf.name = "errno"; inf.size = 4; I.errnoObj = I.newObj(S, inf); }
  std::map<std::string, u32> objId; std::vector<std::string> dump;
  auto sizeExt = [&](const JO* o) { Ext e; auto it = symId.find(o->getString("sym")->str()); if (it == symId.end()) die("unknown symbol"); e.sym = it->second; e.symk = o->getInteger("k").value_or(1); e.symc = o->getInteger("c").value_or(0); return internExt(e); };
  std::function<V(const JO*)> val = [&](const JO* a) -> V {
    if (auto s = a->getString("ptr")) { if (!objId.count(s->str())) die("unknown object " + s->str()); V p = mkPtr(objId[s->str()], a->getInteger("off").value_or(0)); if (auto* l = a->getObject("symoff")) { p.ext = sizeExt(l); I.norm(S, p, 64); } return p; }
    if (a->getBoolean("null").value_or(false)) return mkNull();
    if (auto s = a->getString("fn")) { for (auto& F : *P.M) if (F.getName() == *s) { V v; v.k = K_FN; v.obj = P.fn(&F)->id; return v; } die("unknown function"); }
    u32 lab = 0; if (auto at = a->getString("atom")) lab = labelAtom(atomIndex(at->str()));
    if (a->getString("sym")) { V v; v.label = lab; v.ext = sizeExt(a); __int128 l, h; I.symRange(S, gExts[v.ext], l, h); v.lo = (u64)l; v.hi = (u64)h; return v; }
    if (auto i = a->getInteger("int")) return mkC((u64)*i & maskW(a->getInteger("w").value_or(64)), lab);
    if (auto* r = a->getArray("range")) return mkRange((u64)*(*r)[0].getAsInteger(), (u64)*(*r)[1].getAsInteger(), lab);
    die("bad argument"); return V(); };
  auto* objs = cfg.getArray("objs");
  if (objs) for (auto& v : *objs) { auto* o = v.getAsObject(); ObjInfo inf; inf.kind = O_PARAM; inf.name = o->getString("name")->str(); inf.readonly = o->getBoolean("readonly").value_or(false); inf.watch = o->getBoolean("watch").value_or(false); inf.align = o->getInteger("align").value_or(0); std::string init = o->getString("init").value_or("input").str();
      if (auto at = o->getString("atom")) inf.dlabel = labelAtom(atomIndex(at->str()));
      if (init == "uninit") inf.dlabel = labelAtom(A_UNINIT); if (init == "zero") inf.dlo = inf.dhi = 0; if (init == "ones") inf.dlo = inf.dhi = 255;
      if (auto* so = o->getObject("sizeSym")) { inf.symbolic = true; inf.sizeExt = sizeExt(so); inf.maybeNull = o->getBoolean("maybeNull").value_or(false); }
      else { inf.size = *o->getInteger("size"); inf.limit = o->getInteger("limit").value_or(0); if (init == "input") { inf.dids = I.fresh(inf.size); } }
      u64 sz = inf.size; u32 dids = inf.dids; u32 id = I.newObj(S, inf); objId[inf.name] = id; if (dids && sz) I.ids.push_back({dids, (u32)sz, IDK_INPUT, id, 0});
      if (o->getBoolean("dump").value_or(true)) dump.push_back(inf.name); }
  if (objs) for (auto& v : *objs) { auto* o = v.getAsObject(); u32 id = objId[o->getString("name")->str()]; Obj* m = I.mutObj(S, id);
      if (auto* sg = o->getArray("segs")) for (auto& w : *sg) { auto* g = w.getAsObject(); u64 off = *g->getInteger("off"), len = *g->getInteger("len"); u32 lab = m->dlabel; if (auto at = g->getString("atom")) lab = labelAtom(atomIndex(at->str())); auto* by = g->getArray("bytes"); i64 lo = g->getInteger("lo").value_or(0), hi = g->getInteger("hi").value_or(255); for (u64 i = 0; i < len; i++) { u8 a, b; u32 l, q; I.getByte(m, off + i, a, b, l, q); u8 L = lo, H = hi; if (by) L = H = (u8)*(*by)[i].getAsInteger(); I.putByte(m, off + i, L, H, lab, by ? 0 : q); } }
      if (auto* ce = o->getArray("cells")) for (auto& w : *ce) { auto* g = w.getAsObject(); V x = val(g); Ty t; t.bytes = g->getInteger("bytes").value_or(8); t.w = t.bytes * 8; t.k = x.k == K_PTR ? T_PTR : T_INT; bool ro = gObjInfo[id].readonly; gObjInfo[id].readonly = false; I.storeV(S, mkPtr(id, *g->getInteger("off")), x, t, false); gObjInfo[id].readonly = ro; I.mutObj(S, id)->touched = false; } }
  if (auto* se = cfg.getArray("secret")) for (auto& v : *se) I.ctMask.set(atomIndex(v.getAsString()->str()));
  if (auto* ve = cfg.getObject("verdictEq")) { u32 id = objId[ve->getString("obj")->str()]; I.verdictBase = gObjInfo[id].dids + (u32)ve->getInteger("off").value_or(0); I.verdictLen = (u32)*ve->getInteger("len"); }
  if (auto na = cfg.getString("narrow")) I.narrowAtom = atomIndex(na->str());
  if (auto* fz = cfg.getArray("forceZero")) for (auto& v : *fz) I.forceZero.insert((u32)*v.getAsInteger());
  for (auto& F : *P.M) P.fn(&F);
  // run
  std::vector<Out> cur(1); cur[0].c.st = S; JA callList;
  std::vector<const JO*> calls; if (auto* cs = cfg.getArray("calls")) { for (auto& v : *cs) calls.push_back(v.getAsObject()); } else calls.push_back(&cfg);
  for (const JO* cl : calls) { auto en = cl->getString("entry"); if (!en) die("no entry"); auto it = P.byName.find(en->str()); if (it == P.byName.end() || !it->second->hasBody) die("entry function " + en->str() + " is not defined");
    std::vector<V> args; if (auto* ar = cl->getArray("args")) for (auto& v : *ar) { S = cur.empty() ? S : cur[0].c.st; args.push_back(val(v.getAsObject())); }
    Fn* f = it->second; if (f->F->arg_size() != args.size()) die("argument count of " + f->name);
    std::vector<Out> nx; for (auto& o : cur) { Cur c; c.st = std::move(o.c.st); for (auto& r : I.call(f, std::move(c), args, nullptr)) nx.push_back(std::move(r)); if (I.aborted) break; } cur.swap(nx); if (I.aborted) break; }
  // results
  JO R; R["entry"] = calls.back()->getString("entry")->str(); R["aborted"] = I.aborted; if (I.aborted) R["abortMsg"] = I.abortMsg + " in " + I.stackStr();
  JA outsJ;
  auto lin = [&](const V& v0) { V v = v0; JO j; j["lo"] = (i64)v.lo; j["hi"] = (i64)v.hi; return j; };
  for (auto& o : cur) { JO j; State& st = o.c.st; V r = o.ret; if (r.ext) I.norm(st, r, 64); if (r.k == K_INT) { j["ret"] = lin(r); j["retLabel"] = labJ(r.label); int rp = 0; u32 rf = 0; if (r.ext || r.obj) { rf = factsPol(r, 1); rp = 1; if (!rf) { rf = factsPol(r, 2); rp = 2; } } if (rf) { JA f; for (auto& x : gFactSets[rf]) f.push_back(std::to_string(x.k) + ":" + I.idName(x.a) + "#" + std::to_string(x.a) + ":" + (x.b ? I.idName(x.b) + "#" + std::to_string(x.b) : "")); j["retPol"] = rp; j["retFacts"] = std::move(f); } } else if (r.k == K_PTR) { JO p; p["obj"] = r.obj ? I.objName(r.obj) : std::string("null"); p["off"] = (i64)r.lo; j["retPtr"] = std::move(p); }
    JA f; for (auto& x : gFactSets[st.facts]) f.push_back(std::to_string(x.k) + ":" + I.idName(x.a) + "#" + std::to_string(x.a) + ":" + (x.b ? I.idName(x.b) + "#" + std::to_string(x.b) : "")); j["facts"] = std::move(f);
    JO sy; for (size_t k = 1; k < st.symR.size(); k++) sy[I.symNames[k]] = JA{(i64)st.symR[k].first, (i64)st.symR[k].second}; j["syms"] = std::move(sy);
    JA leaks; for (u32 id = 1; id < gObjInfo.size(); id++) { ObjKind k = gObjInfo[id].kind; if (k != O_HEAP && k != O_CIPHER) continue; Obj* q = st.objs.get(id); if (q && q->st != S_FREED) { JO l; l["what"] = I.objName(id); l["maybe"] = q->st == S_MAYBE; leaks.push_back(std::move(l)); } } j["leaks"] = std::move(leaks);
    JO ob; for (auto& n : dump) { u32 id = objId[n]; Obj* q = st.objs.get(id); if (!q) continue; JO d; d["touched"] = q->touched; if (gObjInfo[id].symbolic) { d["symbolic"] = true; d["sumLabel"] = labJ(q->sumLabel); ob[n] = std::move(d); continue; }
      JA runs; auto cellAt = [&](u64 off) -> const V* { for (auto& c : q->cells) if (c.first <= off && off < c.first + c.second.pad) return &c.second; return nullptr; };
      u64 i = 0; while (i < q->size) { JO rr; const V* ce = cellAt(i); if (ce) { u64 e = i; while (e < q->size && cellAt(e) == ce) e++; rr["off"] = (i64)i; rr["len"] = (i64)(e - i); rr["kind"] = "cell"; if (ce->k == K_INT) { V t = *ce; if (t.ext) I.norm(st, t, 64); rr["lo"] = (i64)t.lo; rr["hi"] = (i64)t.hi; if (t.ext && gExts[t.ext].sym) { rr["sym"] = I.symNames[gExts[t.ext].sym]; rr["k"] = gExts[t.ext].symk; rr["c"] = gExts[t.ext].symc; } } rr["label"] = labJ(ce->label); runs.push_back(std::move(rr)); i = e; continue; }
        u8 lo, hi; u32 la, idb; I.getByte(q, i, lo, hi, la, idb); auto cls = [&](u8 lo, u8 hi, u32 idb) { std::string nm = idb ? I.idName(idb) : ""; return !nm.empty() ? 1 : lo == hi ? 2 : idb ? 3 : 4; }; int k = cls(lo, hi, idb); if (I.terms && k != 2 && k != 1 && idb) { auto xt = I.xorTerm.find(idb); rr["exact"] = xt != I.xorTerm.end() && xt->second.second; } std::string nm = idb ? I.idName(idb) : ""; u64 e = i + 1; auto pre = [](const std::string& s) { return s.substr(0, s.rfind('+')); };
        while (e < q->size && !cellAt(e)) { u8 l2, h2; u32 a2, d2; I.getByte(q, e, l2, h2, a2, d2); if (a2 != la || cls(l2, h2, d2) != k) break; if (k == 1 && (d2 != idb + (e - i) || pre(I.idName(d2)) != pre(nm))) break; if (k == 3 && d2 != idb + (e - i)) break; if (k == 2 && l2 != lo) break; e++; }
        rr["off"] = (i64)i; rr["len"] = (i64)(e - i); rr["kind"] = k == 1 ? "id" : k == 2 ? "const" : "val"; if (k == 1) rr["name"] = nm; if (k == 3) rr["name"] = "v" + std::to_string(idb); if (k == 2) rr["value"] = (i64)lo; rr["label"] = labJ(la); runs.push_back(std::move(rr)); i = e; }
      d["runs"] = std::move(runs); d["wiped"] = (i64)q->aux; ob[n] = std::move(d); } j["objs"] = std::move(ob);
    if (auto* kq = cfg.getArray("derive")) { JA dj; for (auto& w : *kq) { auto* g = w.getAsObject(); std::vector<u8> known(I.nextId, 0); auto each = [&](const json::Object* r, const std::function<void(u32)>& fn) { u32 id = objId[r->getString("obj")->str()]; Obj* q = st.objs.get(id); if (!q) return; i64 off = r->getInteger("off").value_or(0), len = r->getInteger("len").value_or((i64)q->size - off); for (i64 i = off; i < off + len; i++) { u8 x, y; u32 l, b; I.getByte(q, i, x, y, l, b); fn(b); } };
      for (auto& r : *g->getArray("known")) each(r.getAsObject(), [&](u32 b) { if (b) known[b] = 1; }); I.closure(known); if (auto* own = g->getArray("owners")) { i64 der = 0, leak = 0, none = 0, chk = 0; std::map<u32, std::set<u32>> mine; for (auto& r : *own) each(r.getAsObject(), [&](u32 b) { bool f = false; for (size_t lo = 0, hi = I.oracles.size(); b && lo < hi;) { size_t m = (lo + hi) / 2; auto& o = I.oracles[m]; if (b < o.base) hi = m; else if (b >= o.base + o.len) lo = m + 1; else { mine[(u32)m].insert(b); f = true; break; } } if (!f) none++; });
      for (auto& kv : mine) { auto& o = I.oracles[kv.first]; chk++; bool all = true; for (u32 i : o.in) if (i && !known[i]) all = false; if (all) { der++; continue; } for (u32 i = 0; i < o.len; i++) if (known[o.base + i] && !kv.second.count(o.base + i)) { leak++; break; } } JO x; x["derivable"] = der; x["leaked"] = leak; x["inexact"] = none; x["checked"] = chk; dj.push_back(std::move(x)); continue; }
      i64 nk = 0, tot = 0, inex = 0; if (g->getArray("target")) for (auto& r : *g->getArray("target")) each(r.getAsObject(), [&](u32 b) { tot++; if (!b || !I.isNamed(b)) inex++; else if (known[b]) nk++; }); JO x; x["known"] = nk; x["total"] = tot; x["inexact"] = inex; dj.push_back(std::move(x)); } j["derive"] = std::move(dj); }
    std::vector<Ev*> evs; for (Ev* e = st.ev.p; e; e = e->prev.p) evs.push_back(e); std::reverse(evs.begin(), evs.end()); JA ej; for (Ev* e : evs) { auto v = json::parse(e->json); if (v) ej.push_back(*v); else { consumeError(v.takeError()); ej.push_back(e->json); } } j["events"] = std::move(ej);
    outsJ.push_back(std::move(j)); }
  R["outcomes"] = std::move(outsJ);
  JA rep; for (auto& r : I.reports) { JO j; j["kind"] = r.kind; j["where"] = r.where; j["msg"] = r.msg; j["stack"] = r.stack; j["label"] = labJ(r.label); j["deferred"] = r.deferred; j["count"] = (i64)r.count; rep.push_back(std::move(j)); } R["reports"] = std::move(rep);
  auto shapeSeg = [&](const Seg& g) { std::string s = I.segStr(g); if (g.k == 0) { std::string o; bool dig = false; for (char ch : s) { if (ch >= '0' && ch <= '9') { if (!dig) o += '#'; dig = true; } else { o += ch; dig = false; } } s = o; } return s + "/" + std::to_string(g.len) + "/" + std::to_string(g.label); };
  if (cfg.getBoolean("dumpHash").value_or(true)) { // frequent shapes are reported once, with the record numbers they stand for
    std::vector<int> grp(I.hrecs.size()); std::map<std::string, int> gi; std::vector<std::vector<u32>> members;
    for (size_t k = 0; k < I.hrecs.size(); k++) { auto& h = I.hrecs[k]; std::string key = h.where + "|" + std::to_string(h.rate) + "|" + std::to_string(h.suffix) + (h.unbounded ? "u" : "") + (h.muted ? "m" : ""); if (h.atom >= 0) key += "a" + std::to_string(h.atom); for (auto& t : h.alts) { key += "||"; if (t->segs.size() > 24) { key += "long" + std::to_string(k); continue; } for (auto& g : t->segs) key += shapeSeg(g) + ","; for (auto& c : t->symc) key += ";" + std::to_string(c.first) + "-" + std::to_string(c.second); } key += "|sq"; for (auto& q : h.sq) key += std::to_string(q[0]) + ":" + std::to_string(q[1]) + ","; auto it = gi.find(key); if (it == gi.end()) { it = gi.emplace(key, (int)members.size()).first; members.emplace_back(); } grp[k] = it->second; members[it->second].push_back((u32)k); }
    JA hj, gj; for (size_t k = 0; k < I.hrecs.size(); k++) { auto& h = I.hrecs[k]; auto& mem = members[grp[k]]; if (mem.size() > 40 && mem[0] != k) continue; JO j; j["n"] = (i64)k; j["rate"] = (i64)h.rate; j["suffix"] = (i64)h.suffix; j["unbounded"] = h.unbounded; j["muted"] = h.muted; j["where"] = h.where; j["stack"] = h.stack; j["label"] = labJ(h.label); if (h.atom >= 0) { j["atom"] = gAtomNames[h.atom]; } JA al; for (auto& t : h.alts) { JO a; JA sg; for (auto& g : t->segs) sg.push_back(I.segStr(g)); a["segs"] = std::move(sg); JA sc; for (auto& c : t->symc) sc.push_back(JA{(i64)c.first, (i64)c.second}); a["symc"] = std::move(sc); al.push_back(std::move(a)); } j["alts"] = std::move(al); JA sq; for (auto& q : h.sq) { auto at = h.sqAtom.find(q[0]); sq.push_back(JA{(i64)q[0], (i64)q[1], at == h.sqAtom.end() ? "" : gAtomNames[at->second]}); } j["sq"] = std::move(sq);
      if (mem.size() > 40) { JA rg; for (size_t a = 0; a < mem.size();) { size_t b = a; while (b + 1 < mem.size() && mem[b + 1] == mem[b] + 1) b++; rg.push_back(JA{(i64)mem[a], (i64)mem[b]}); a = b + 1; } j["members"] = std::move(rg); }
      hj.push_back(std::move(j)); } R["hashes"] = std::move(hj); }
  if (cfg.getBoolean("dumpPrg").value_or(false)) { std::map<std::string, std::pair<size_t, size_t>> g; for (size_t k = 0; k < I.prgs.size(); k++) { auto& p = I.prgs[k]; std::string key = p.where + "|" + std::to_string(p.outlen) + "|" + std::to_string(p.keybytes) + (p.muted ? "m" : "") + std::to_string(p.keyLabel) + "|"; for (auto& s : p.iv) key += I.segStr(s) + ","; key += "|"; for (auto& s : p.key) key += shapeSeg(s); auto& e = g[key]; if (!e.second++) e.first = k; }
    JA pj; for (auto& kv : g) { auto& p = I.prgs[kv.second.first]; JO j; j["count"] = (i64)kv.second.second; j["key"] = I.segStr(p.key); j["iv"] = I.segStr(p.iv); j["outlen"] = (i64)p.outlen; j["where"] = p.where; j["muted"] = p.muted; j["keybytes"] = (i64)p.keybytes; j["keyLabel"] = labJ(p.keyLabel); pj.push_back(std::move(j)); } R["prgs"] = std::move(pj); }
  if (!I.terms) { JA cj; for (auto& x : I.ciphers) { JO j; j["mode"] = x.mode; j["keybytes"] = (i64)x.keybytes; j["key"] = I.segStr(x.key); j["iv"] = I.segStr(x.iv); cj.push_back(std::move(j)); } R["ciphers"] = std::move(cj); }
  { JA aj; for (auto& x : I.aesRecs) { JO j; j["words"] = (i64)x.words; j["rounds"] = (i64)x.rounds; j["where"] = x.where; j["muted"] = x.muted; JA in; for (auto& v : x.in) { if (v.isC()) in.push_back("c" + std::to_string(v.lo)); else if (v.id) in.push_back(I.idName(v.id)); else in.push_back("?" + std::to_string(v.lo) + "-" + std::to_string(v.hi)); } j["in"] = std::move(in); aj.push_back(std::move(j)); } R["aes"] = std::move(aj); }
  { JA sj; for (auto& x : I.sboxes) { JO j; j["id"] = (i64)x.id; j["name"] = I.idName(x.id); j["label"] = labJ(x.label); j["where"] = x.where; j["lo"] = (i64)x.lo; j["hi"] = (i64)x.hi; sj.push_back(std::move(j)); } R["sboxes"] = std::move(sj); }
  { JO aa; for (auto& kv : I.atomAbs) aa[gAtomNames[kv.first]] = labJ(kv.second); R["challengeAbsorbed"] = std::move(aa); }
  JO stt; stt["steps"] = (i64)I.steps; stt["forks"] = (i64)I.forks; if (I.ub) { stt["alignChecks"] = (i64)I.alignChecks; stt["signedOps"] = (i64)I.signedOps; stt["reachChecks"] = (i64)I.reachChecks; stt["alignUndecided"] = (i64)I.counters["alignment_undecided"]; stt["overflowUndecided"] = (i64)I.counters["signed_overflow_undecided"]; } stt["joins"] = (i64)I.joins; stt["fixpoints"] = (i64)I.fixpoints; stt["accesses"] = (i64)I.accesses; stt["branches"] = (i64)I.branches; stt["undecidedBranches"] = (i64)I.undecidedBranches; stt["calls"] = (i64)I.callsN; stt["memSites"] = (i64)I.memSites.size(); stt["branchSites"] = (i64)I.brSites.size(); stt["allocSites"] = (i64)I.allocSites.size(); stt["objects"] = (i64)gObjInfo.size(); stt["functions"] = (i64)I.fnsSeen.size(); stt["labels"] = (i64)gLabels.size(); stt["hashes"] = (i64)I.hrecs.size(); stt["prgs"] = (i64)I.prgs.size(); stt["divs"] = (i64)I.divs;
  stt["zfArith"] = (i64)I.zfArith; stt["narrowSites"] = (i64)I.narrowSites.size(); for (auto& kv : I.counters) stt["c_" + kv.first] = (i64)kv.second; struct rusage ru; getrusage(RUSAGE_SELF, &ru); stt["cpuMs"] = (i64)(ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000); stt["maxRssMB"] = (i64)(ru.ru_maxrss / 1024); R["stats"] = std::move(stt);
  JA fs; for (auto& s : I.fnsSeen) fs.push_back(s); R["functionsSeen"] = std::move(fs); JA ex; for (auto& s : I.externals) ex.push_back(s); R["externals"] = std::move(ex); JA gw; for (auto& s : I.globalsWritten) gw.push_back(s); R["globalsWritten"] = std::move(gw); JA al; for (auto& s : I.allocSites) al.push_back(s); R["allocationSites"] = std::move(al); JA us; for (auto& s : P.unsupported) us.push_back(s); R["unsupported"] = std::move(us);
  if (cfg.getBoolean("calls").value_or(false)) {}
  outs() << json::Value(std::move(R)) << "\n"; outs().flush(); _exit(0); }
