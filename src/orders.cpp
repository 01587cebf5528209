// orders: dataflow over order facts for reclamation code.
// State: for pairs of SSA values (and a few ghosts) the subset of {<,=,>} that is still possible; known memory
// cells; the position of an arbitrary but fixed witness in the list of readers.  States are kept per basic block
// until no new one appears.  Used to decide what is known when something is released, announced or advanced.
#include "prep.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <deque>
static cl::opt<std::string> SpecF("spec", cl::Required), BCF("bc", cl::Required), OutF("out", cl::init("-"));
static cl::opt<std::string> Dump("dump", cl::init(""));
enum { LT = 1, EQ = 2, GT = 4, ALL = 7 };
static int conv(int r) { return (r & EQ) | (r & LT ? GT : 0) | (r & GT ? LT : 0); }
static int comp1(int a, int b) { if (a == EQ) return b; if (b == EQ) return a; return a == b ? a : ALL; }
static int comp(int a, int b) { int r = 0; for (int x : {LT, EQ, GT}) if (a & x) for (int y : {LT, EQ, GT}) if (b & y) r |= comp1(x, y); return r; }

static std::vector<Value *> vals; static std::map<Value *, int> vid; static std::map<std::string, int> ghosts; static std::map<int64_t, int> consts; static std::map<int, int64_t> constOf;
static int gid(const std::string &n) { auto it = ghosts.find(n); if (it != ghosts.end()) return it->second; vals.push_back(nullptr); return ghosts[n] = vals.size() - 1; }
static int cid(int64_t c) { auto it = consts.find(c); if (it != consts.end()) return it->second; vals.push_back(nullptr); int i = vals.size() - 1; consts[c] = i; constOf[i] = c; return i; }
static int id(Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) return cid(c->getBitWidth() <= 64 ? (c->isMinusOne() && c->getBitWidth() > 1 ? INT64_MAX : (int64_t)c->getZExtValue()) : 0);
  if (isa<ConstantPointerNull>(v)) return cid(0);
  auto it = vid.find(v); if (it != vid.end()) return it->second; vals.push_back(v); return vid[v] = vals.size() - 1; }
static bool isCst(int i) { return constOf.count(i); }

struct Addr { Value *base = nullptr; int64_t off = 0; Value *idx = nullptr; std::vector<Value *> idxs; std::vector<std::string> names; };
struct St {
  std::map<std::pair<int, int>, int> rel; std::map<std::pair<int, int64_t>, int> cell; std::map<int, std::set<std::string>> attr; std::map<int, std::pair<int, int>> shift; std::map<int, std::pair<int, std::string>> origin;
  std::map<std::string, std::pair<int, int>> stored; // field -> (base, value) of the last store on the path
  std::set<std::string> calls; int p = 0; std::map<int, int> bools;
  std::map<std::pair<int, char>, int> wb, low; std::map<int, std::tuple<int, char, int>> der; // one witness bit of a mask; is it the lowest one; v-1, -v, 1<<v, v>>k
  int get(int a, int b) const { if (a == b) return EQ; if (isCst(a) && isCst(b)) return constOf[a] < constOf[b] ? LT : constOf[a] > constOf[b] ? GT : EQ; bool sw = a > b; if (sw) std::swap(a, b); auto it = rel.find({a, b}); int r = it == rel.end() ? ALL : it->second; return sw ? conv(r) : r; }
  void put(int a, int b, int r) { if (a == b) return; if (a > b) { std::swap(a, b); r = conv(r); } if (r == ALL) rel.erase({a, b}); else rel[{a, b}] = r; }
  bool add(int a, int b, int r) { // refine and close; false if contradictory
    int o = get(a, b); if ((o & r) == 0) return false; if ((o & r) == o && a != b) { } if (a == b) return r & EQ; if ((o & r) == o) return true; put(a, b, o & r);
    std::deque<std::pair<int, int>> q{{a, b}}; 
    while (!q.empty()) { auto [x, y] = q.front(); q.pop_front(); std::set<int> nb; for (auto &e : rel) { nb.insert(e.first.first); nb.insert(e.first.second); } for (auto &c : consts) nb.insert(c.second);
      for (int z : nb) { if (z == x || z == y) continue; int xz = get(x, z), nxz = xz & comp(get(x, y), get(y, z)); if (!nxz) return false; if (nxz != xz && !(isCst(x) && isCst(z))) { put(x, z, nxz); q.push_back({x, z}); }
        int yz = get(y, z), nyz = yz & comp(get(y, x), get(x, z)); if (!nyz) return false; if (nyz != yz && !(isCst(y) && isCst(z))) { put(y, z, nyz); q.push_back({y, z}); } } }
    return true; }
  int equalTo(int v) const { for (auto &e : rel) if (e.second == EQ) { if (e.first.first == v) return e.first.second; if (e.first.second == v) return e.first.first; } return -1; }
  void kill(int v) {
    int e = equalTo(v); for (char w : {'I', 'B'}) { wb.erase({v, w}); low.erase({v, w}); } der.erase(v);
    for (auto it = der.begin(); it != der.end();) { auto &[x, k, y] = it->second; if (x == v) x = e; if (y == v && k == '>') y = e; if (x < 0 || (k == '>' && y < 0)) it = der.erase(it); else ++it; }
    for (auto it = rel.begin(); it != rel.end();) if (it->first.first == v || it->first.second == v) it = rel.erase(it); else ++it;
    std::map<std::pair<int, int64_t>, int> nc; for (auto &c : cell) { int b = c.first.first, w = c.second; if (b == v) b = e; if (w == v) w = e; if (b >= 0 && w >= 0) nc.insert({{b, c.first.second}, w}); } cell = std::move(nc);
    attr.erase(v); bools.erase(v); std::map<int, std::pair<int, int>> ns; for (auto &s : shift) { if (s.first == v) continue; int w = s.second.first == v ? e : s.second.first; if (w >= 0) ns[s.first] = {w, s.second.second}; } shift = std::move(ns);
    std::map<int, std::pair<int, std::string>> no; for (auto &o : origin) { if (o.first == v) continue; int b = o.second.first == v ? e : o.second.first; if (b >= 0) no[o.first] = {b, o.second.second}; } origin = std::move(no);
    for (auto &s : stored) { if (s.second.first == v) s.second.first = e; if (s.second.second == v) s.second.second = e; }
  }
  void copyTo(int n, int o) { // n := o, n has no facts
    if (isCst(o)) { } 
    std::vector<std::pair<int, int>> f; for (auto &e : rel) { if (e.first.first == o && e.first.second != n) f.push_back({e.first.second, e.second}); if (e.first.second == o && e.first.first != n) f.push_back({e.first.first, conv(e.second)}); }
    for (auto &x : f) put(n, x.first, x.second); put(n, o, EQ); if (isCst(o)) for (auto &c : consts) if (c.second != o) put(n, c.second, get(o, c.second));
    auto cs = cell; for (auto &c : cs) if (c.first.first == o) cell[{n, c.first.second}] = c.second;
    if (attr.count(o)) attr[n] = attr[o]; if (shift.count(o)) shift[n] = shift[o]; if (origin.count(o)) origin[n] = origin[o]; if (bools.count(o)) bools[n] = bools[o]; if (isCst(o)) bools[n] = constOf[o];
    for (char w : {'I', 'B'}) { if (wb.count({o, w})) wb[{n, w}] = wb[{o, w}]; if (low.count({o, w})) low[{n, w}] = low[{o, w}]; } if (der.count(o)) der[n] = der[o]; }
  std::string key() const { std::string s; raw_string_ostream o(s); o << p; for (auto &e : rel) o << "," << e.first.first << "." << e.first.second << "." << e.second; o << ";"; for (auto &c : cell) o << c.first.first << "." << c.first.second << "." << c.second << ","; o << ";"; for (auto &a : attr) { o << a.first; for (auto &x : a.second) o << x << "."; } o << ";"; for (auto &x : shift) o << x.first << "." << x.second.first << "." << x.second.second << ","; o << ";"; for (auto &x : stored) o << x.first << "." << x.second.first << "." << x.second.second << ","; o << ";"; for (auto &c : calls) o << c << ","; o << ";"; for (auto &b : bools) o << b.first << "." << b.second << ","; for (auto &x : origin) o << x.first << "." << x.second.first << x.second.second << ","; for (auto &x : wb) o << x.first.first << x.first.second << x.second << ","; o << ";"; for (auto &x : low) o << x.first.first << x.first.second << x.second << ","; o << ";"; for (auto &x : der) o << x.first << "." << std::get<0>(x.second) << std::get<1>(x.second) << std::get<2>(x.second) << ","; return o.str(); }
};

struct An {
  Module &M; const DataLayout &DL; FieldTable &FT; json::Object &O; json::Object &E; std::set<std::string> found; std::vector<json::Value> findings; std::map<std::string, int> sites; unsigned nst = 0; size_t blockCap = 4000; bool trunc = false;
  std::map<BasicBlock *, std::set<Value *>> live; std::map<std::pair<GlobalVariable *, int>, int> tabs;
  An(Module &m, FieldTable &ft, json::Object &o, json::Object &e) : M(m), DL(m.getDataLayout()), FT(ft), O(o), E(e) {}
  std::set<std::string> strs(const char *k) { std::set<std::string> r; if (auto *a = O.getArray(k)) for (auto &x : *a) r.insert(x.getAsString()->str()); if (auto *a = E.getArray(k)) for (auto &x : *a) r.insert(x.getAsString()->str()); return r; }
  std::set<std::string> first, next, wfield, volat, keepf, keepl; std::map<std::string, std::string> tagf, firstg;
  std::map<Value *, std::set<std::string>> tcache;
  const std::set<std::string> &typesOf(Value *p, int d = 0) { // types a bare pointer is used with elsewhere in the function, declared for a parameter, or of the field it was read from
    auto it = tcache.find(p); if (it != tcache.end()) return it->second; std::set<std::string> r; tcache[p] = r;
    for (auto *u : p->users()) if (auto *G = dyn_cast<GEPOperator>(u)) if (auto *T = dyn_cast<StructType>(G->getSourceElementType()); T && T->hasName()) { auto n = normType(T->getName()); if (FT.t.count(n)) r.insert(n); }
    { SmallVector<DbgValueInst *, 4> dv; findDbgValues(dv, p); for (auto *D : dv) if (!D->getExpression() || !D->getExpression()->getNumElements()) { auto x = ptrTo(D->getVariable()->getType()); if (!x.empty()) r.insert(x); } }
    if (auto *A = dyn_cast<Argument>(p)) if (auto *t = E.getArray("params")) if (A->getArgNo() < t->size()) r.insert((*t)[A->getArgNo()].getAsString()->str());
    if (d < 6) { if (auto *L = dyn_cast<LoadInst>(p)) { Addr a = addrOf(L->getPointerOperand(), d + 1); for (auto &n : a.names) { auto q = pointee.find(n); if (q != pointee.end()) r.insert(q->second); } }
      if (auto *P = dyn_cast<PHINode>(p)) for (auto &v : P->incoming_values()) { auto x = typesOf(v, d + 1); r.insert(x.begin(), x.end()); }
      if (auto *P = dyn_cast<SelectInst>(p)) for (Value *v : {P->getTrueValue(), P->getFalseValue()}) { auto x = typesOf(v, d + 1); r.insert(x.begin(), x.end()); } }
    return tcache[p] = r; }
  static std::string ptrTo(const DIType *t) { bool ptr = false; while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) { if (ptr) return ""; ptr = true; } else if (d->getTag() == dwarf::DW_TAG_reference_type) return ""; t = d->getBaseType(); } auto *c = dyn_cast_or_null<DICompositeType>(t); return ptr && c && c->getTag() != dwarf::DW_TAG_array_type && c->getTag() != dwarf::DW_TAG_enumeration_type ? diTypeName(c) : ""; }
  std::map<std::string, std::string> pointee; // field or global holding a pointer -> type pointed to
  void buildPointees() {
    DebugInfoFinder DF; DF.processModule(M);
    std::function<void(const std::string &, const DICompositeType *, int)> rec = [&](const std::string &n, const DICompositeType *C, int d) { if (d > 6) return; for (auto *e : C->getElements()) { auto *m = dyn_cast_or_null<DIDerivedType>(e); if (!m || m->getTag() != dwarf::DW_TAG_member) continue; if (m->getName().empty()) { const DIType *bt = m->getBaseType(); while (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) bt = dd->getBaseType(); if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) rec(n, bc, d + 1); continue; } auto x = ptrTo(m->getBaseType()); if (!x.empty()) pointee[n + "." + m->getName().str()] = x; } };
    for (auto *T : DF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) { auto n = diTypeName(C); if (!n.empty() && C->getTag() != dwarf::DW_TAG_array_type && C->getTag() != dwarf::DW_TAG_enumeration_type) rec(n, C, 0); }
    for (auto &g : M.globals()) { SmallVector<DIGlobalVariableExpression *, 1> v; g.getDebugInfo(v); for (auto *e : v) { auto x = ptrTo(e->getVariable()->getType()); if (!x.empty()) pointee["@" + normName(g.getName())] = x; } } }
  void name(Addr &a, const std::string &tn, int64_t off) { auto it = FT.t.find(tn); if (it == FT.t.end() || off < 0) return; std::set<std::string> r{FT.fieldAt(tn, off), FT.innerAt(tn, off)}; for (auto &f : it->second) if ((int64_t)f.off == off) r.insert(tn + "." + f.name); for (auto &n : r) if (std::find(a.names.begin(), a.names.end(), n) == a.names.end()) a.names.push_back(n); }
  Addr addrOf(Value *p, int d = 0) {
    Addr a; while (true) {
      if (auto *G = dyn_cast<GEPOperator>(p)) { APInt o(64, 0); MapVector<Value *, APInt> vo; if (!G->collectOffset(DL, 64, vo, o)) { a.base = p; return a; } a.off += o.getSExtValue(); for (auto &x : vo) { Value *i = x.first; while (isa<ZExtInst>(i) || isa<SExtInst>(i)) i = cast<Instruction>(i)->getOperand(0); a.idx = i; a.idxs.push_back(i); }
        Type *et = G->getSourceElementType(); bool arr = false; while (auto *AT = dyn_cast<ArrayType>(et)) { et = AT->getElementType(); arr = true; }
        if (auto *T = dyn_cast<StructType>(et); T && arr && T->hasName() && a.off >= 0) name(a, normType(T->getName()), a.off % (int64_t)DL.getTypeAllocSize(T));
        if (auto *T = dyn_cast<StructType>(G->getSourceElementType()); T && T->hasName()) { std::string tn = normType(T->getName()); int64_t off = a.off; uint64_t sz = DL.getTypeAllocSize(T); if (a.off >= 0 && (uint64_t)a.off < sz) { name(a, tn, off); } }
        p = G->getPointerOperand(); continue; }
      if (auto *B = dyn_cast<BitCastOperator>(p)) { p = B->getOperand(0); continue; }
      break; }
    a.base = p; if (d < 6) for (auto &tn : typesOf(p, d)) name(a, tn, a.off);
    if (isa<AllocaInst>(p) && a.idx) a.names.push_back("@local");
    if (auto *g = dyn_cast<GlobalVariable>(p)) a.names.push_back("@" + normName(g->getName())); return a; }
  bool isF(const Addr &a, const std::string &f) { for (auto &n : a.names) if (globMatch(f, n)) return true; return false; }
  bool inF(const Addr &a, const std::set<std::string> &fs) { for (auto &f : fs) if (isF(a, f)) return true; return false; }
  int shiftOfTable(GlobalVariable *g) { // initializer is x -> x+k mod n ? k : -1
    if (!g->hasInitializer()) return -1; auto *c = dyn_cast<ConstantDataArray>(g->getInitializer()); if (!c) return -1; unsigned n = c->getNumElements(); for (unsigned k = 0; k < n; k++) { bool ok = true; for (unsigned i = 0; i < n; i++) ok = ok && c->getElementAsInteger(i) == (i + k) % n; if (ok) return k; } return -1; }
  bool neverWritten(GlobalVariable *g) { for (auto *u : g->users()) { if (isa<StoreInst>(u)) return false; } return true; }
  void computeLive(Function &F) {
    std::map<BasicBlock *, std::set<Value *>> use, def; for (auto &B : F) for (auto &I : B) { if (auto *P = dyn_cast<PHINode>(&I)) { def[&B].insert(P); continue; } for (auto &op : I.operands()) if ((isa<Instruction>(op) || isa<Argument>(op)) && !def[&B].count(op)) use[&B].insert(op); def[&B].insert(&I); }
    bool ch = true; while (ch) { ch = false; for (auto &B : F) { auto in = use[&B]; for (auto *S : successors(&B)) { for (auto *v : live[S]) if (!def[&B].count(v)) in.insert(v); for (auto &P : S->phis()) { Value *v = P.getIncomingValueForBlock(&B); if ((isa<Instruction>(v) || isa<Argument>(v)) && !def[&B].count(v)) in.insert(v); } } if (in != live[&B]) { live[&B] = in; ch = true; } } } }
  void prune(St &S, BasicBlock *B) {
    std::set<int> keep; for (auto *v : live[B]) keep.insert(id(v)); for (auto &P : B->phis()) keep.insert(id(&P)); for (auto &g : ghosts) keep.insert(g.second); for (auto &c : consts) keep.insert(c.second); for (auto &A : B->getParent()->args()) keep.insert(id(&A));
    for (auto &a : S.attr) keep.insert(a.first); for (auto &s : S.shift) { keep.insert(s.first); keep.insert(s.second.first); } for (auto &s : S.stored) { keep.insert(s.second.first); keep.insert(s.second.second); }
    bool ch = true; while (ch) { ch = false; for (auto &o : S.origin) if (keep.count(o.first) && keep.insert(o.second.first).second) ch = true; for (auto &c : S.cell) { bool k = keep.count(c.first.first); if (!k && vals[c.first.first] && (isa<AllocaInst>(vals[c.first.first]) || isa<GlobalValue>(vals[c.first.first]))) k = true; if (k && keep.insert(c.second).second) ch = true; } }
    std::set<int> all; for (auto &e : S.rel) { all.insert(e.first.first); all.insert(e.first.second); } for (auto &c : S.cell) { all.insert(c.first.first); all.insert(c.second); } for (auto &b : S.bools) all.insert(b.first); for (auto &o : S.origin) { all.insert(o.first); all.insert(o.second.first); } for (auto &x : S.wb) all.insert(x.first.first); for (auto &x : S.low) all.insert(x.first.first); for (auto &x : S.der) { all.insert(x.first); all.insert(std::get<0>(x.second)); }
    for (int v : all) if (!keep.count(v) && !(vals[v] && isa<AllocaInst>(vals[v]))) S.kill(v); }
  bool mayAlias(int x, int y) { if (!vals[x] || !vals[y]) return true; auto &tx = typesOf(vals[x]), &ty = typesOf(vals[y]); if (tx.empty() || ty.empty()) return true; for (auto &t : tx) if (ty.count(t)) return true; return false; } // objects of different types do not overlap
  // ---- obligations
  struct Ctx { Instruction *I; CallBase *CB = nullptr; int val = -1, old = -1, ret = -1, base = -1, idx = -1; };
  std::vector<int> term(St &S, const json::Value &t, Ctx &c) {
    std::vector<int> r; if (auto s = t.getAsString()) { StringRef x = *s; int n; if (x == "r") r.push_back(gid("r")); else if (x == "I" || x == "B") r.push_back(gid(x.str())); else if (x == "val") r.push_back(c.val); else if (x == "old") r.push_back(c.old); else if (x == "ret") r.push_back(c.ret); else if (x == "base") r.push_back(c.base); else if (x == "idx") r.push_back(c.idx);
      else if (x.consume_front("arg:") && !x.getAsInteger(10, n)) { if (c.CB && n < (int)c.CB->arg_size()) r.push_back(id(c.CB->getArgOperand(n))); } else if (x.consume_front("param:") && !x.getAsInteger(10, n)) r.push_back(id(c.I->getFunction()->getArg(n))); else if (x.consume_front("const:") && !x.getAsInteger(10, n)) r.push_back(cid(n)); else if (x.consume_front("global:")) { for (auto &g : M.globals()) if (globMatch(x, normName(g.getName()))) r.push_back(id(&g)); } }
    else if (auto *o = t.getAsObject()) {
      if (auto *a = o->getArray("cell")) { for (int b : term(S, (*a)[0], c)) for (auto &q : S.cell) if ((q.first.first == b || S.get(q.first.first, b) == EQ) && q.first.second == offsetOf((*a)[1].getAsString()->str())) r.push_back(q.second); }
      else if (auto f = o->getString("stored")) { auto it = S.stored.find(f->str()); if (it != S.stored.end() && it->second.second >= 0) r.push_back(it->second.second); }
      else if (auto f = o->getString("storedidx")) { auto it = S.stored.find("#" + f->str()); if (it != S.stored.end() && it->second.second >= 0) r.push_back(it->second.second); }
      else if (auto f = o->getString("loaded")) { auto it = S.stored.find("<" + f->str()); if (it != S.stored.end() && it->second.second >= 0) r.push_back(it->second.second); }
      else if (auto f = o->getString("storedbase")) { auto it = S.stored.find(f->str()); if (it != S.stored.end() && it->second.first >= 0) r.push_back(it->second.first); }
      else if (auto f = o->get("origin")) { for (int b : term(S, *f, c)) { auto it = S.origin.find(b); if (it != S.origin.end()) r.push_back(it->second.first); for (auto &q : S.origin) if (S.get(q.first, b) == EQ && q.first != b) r.push_back(q.second.first); } }
      else if (auto *a = o->getArray("shift")) { int k = *(*a)[1].getAsInteger(); for (int b : term(S, (*a)[0], c)) for (auto &q : S.shift) if (q.second.second == k && (q.second.first == b || S.get(q.second.first, b) == EQ)) r.push_back(q.first); }
      else if (auto f = o->getString("tagged")) { for (auto &q : S.attr) if (q.second.count(f->str())) r.push_back(q.first); }
      else if (auto f = o->get("addridx")) { for (int n = *f->getAsInteger(); c.CB && n < (int)c.CB->arg_size(); n = 99) { Addr a = addrOf(c.CB->getArgOperand(n)); if (a.idx) r.push_back(id(a.idx)); else { int64_t es = 24; } } } }
    r.erase(std::remove(r.begin(), r.end(), -1), r.end()); return r; }
  static Type *storedTy(Instruction *I) { if (auto *T = dyn_cast<StoreInst>(I)) return T->getValueOperand()->getType(); if (auto *R = dyn_cast<AtomicRMWInst>(I)) return R->getValOperand()->getType(); return I->getType(); }
  std::map<std::string, int64_t> offs; std::string badAnchor;
  int64_t offsetOf(const std::string &f) { if (f[0] == '+') return std::stoll(f.substr(1)); auto it = offs.find(f); if (it != offs.end()) return it->second; auto p = StringRef(f).rsplit('.'); int64_t o = -1; for (auto &t : FT.t) if (globMatch(p.first, t.first)) for (auto &x : t.second) if (x.name == p.second) o = x.off; if (o < 0) badAnchor = f; return offs[f] = o; }
  std::string expr(Value *v, int d = 0) { // pure value as text: equal text, equal value within one iteration
    if (auto *c = dyn_cast<ConstantInt>(v)) return "c" + std::to_string(c->getBitWidth() <= 64 ? c->getSExtValue() : 0);
    if (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v) || isa<FreezeInst>(v)) return expr(cast<Instruction>(v)->getOperand(0), d);
    if (d < 12) { if (auto *B = dyn_cast<BinaryOperator>(v)) { std::string x = expr(B->getOperand(0), d + 1), y = expr(B->getOperand(1), d + 1); if (B->isCommutative() && y < x) std::swap(x, y); return std::string("(") + B->getOpcodeName() + " " + x + " " + y + ")"; }
      if (auto *I = dyn_cast<IntrinsicInst>(v); I && I->getIntrinsicID() == Intrinsic::cttz) { auto b = bitExpr(I->getArgOperand(0), d + 1); return b.empty() ? "(ctz " + expr(I->getArgOperand(0), d + 1) + ")" : b; } }
    return "v" + std::to_string(id(v)); }
  std::string bitExpr(Value *v, int d = 0) { // index of the one bit a mask update concerns: 1 << k, old | 1 << k, old & ~(1 << k); empty if not of that form
    if (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v)) return bitExpr(cast<Instruction>(v)->getOperand(0), d); auto *B = dyn_cast<BinaryOperator>(v); if (!B || d > 8) return ""; Value *x = B->getOperand(0), *y = B->getOperand(1);
    if (B->getOpcode() == Instruction::Shl) if (auto *c = dyn_cast<ConstantInt>(x); c && c->getValue().isPowerOf2()) return c->isOne() ? expr(y, d + 1) : "(add c" + std::to_string(c->getValue().logBase2()) + " " + expr(y, d + 1) + ")";
    if (B->getOpcode() == Instruction::Xor) if (auto *c = dyn_cast<ConstantInt>(y); c && c->isMinusOne()) return bitExpr(x, d + 1);
    if (B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Xor || B->getOpcode() == Instruction::Add) { auto p = bitExpr(x, d + 1), q = bitExpr(y, d + 1); return p.empty() ? q : q.empty() ? p : ""; }
    return ""; }
  bool hold(St &S, const json::Object &q, Ctx &c) {
    if (auto *a = q.getArray("any")) { for (auto &x : *a) if (hold(S, *x.getAsObject(), c)) return true; return false; }
    if (auto *a = q.getArray("all")) { for (auto &x : *a) if (!hold(S, *x.getAsObject(), c)) return false; return true; }
    if (auto *a = q.getArray("rel")) { StringRef op = *(*a)[1].getAsString(); int m = op == "<" ? LT : op == "<=" ? LT | EQ : op == "==" ? EQ : op == "!=" ? LT | GT : op == ">" ? GT : GT | EQ; for (int x : term(S, (*a)[0], c)) for (int y : term(S, (*a)[2], c)) if (!(S.get(x, y) & ~m)) return true; return false; }
    if (auto *a = q.getArray("attr")) { for (int x : term(S, (*a)[0], c)) { auto it = S.attr.find(x); if (it != S.attr.end() && it->second.count((*a)[1].getAsString()->str())) return true; for (auto &z : S.attr) if (z.second.count((*a)[1].getAsString()->str()) && S.get(z.first, x) == EQ) return true; } return false; }
    if (auto *a = q.getArray("same_bit")) { // the bit set or cleared in one field is the index stored to in another; unresolved forms pass
      auto m = S.stored.find((*a)[0].getAsString()->str()), x = S.stored.find("$" + (*a)[1].getAsString()->str()); if (m == S.stored.end() || x == S.stored.end() || m->second.second < 0 || x->second.second < 0 || !vals[m->second.second] || isCst(m->second.second)) return true;
      std::string e = bitExpr(vals[m->second.second]); if (e.empty()) return true; return e == (isCst(x->second.second) ? "c" + std::to_string(constOf[x->second.second]) : expr(vals[x->second.second])); }
    if (auto f = q.getString("not_stored")) return !S.stored.count(f->str());
    if (auto f = q.getString("has_stored")) return S.stored.count(f->str());
    if (auto f = q.getString("called")) return S.calls.count(f->str());
    if (auto f = q.getString("not_called")) return !S.calls.count(f->str());
    if (auto f = q.getString("not_tagged")) { for (auto &z : S.attr) if (z.second.count(f->str())) return false; return true; }
    return false; }
  void check(St &S, const char *on, const std::string &what, const Addr *ad, Ctx &c) {
    auto *cs = E.getArray("checks"); if (!cs) return;
    for (auto &cv : *cs) { auto &k = *cv.getAsObject(); if (*k.getString("on") != on) continue; if (auto f = k.getString("fn")) { if (!globMatch(*f, what)) continue; } if (auto f = k.getString("field")) { if (!ad || !isF(*ad, f->str())) continue; }
      if (auto f = k.getString("argfield")) { Addr a = addrOf(c.CB->getArgOperand(0)); if (!isF(a, f->str())) continue; }
      if (auto b = k.getInteger("bits")) { unsigned w = 0; if (auto *L = dyn_cast<LoadInst>(c.I)) w = DL.getTypeSizeInBits(L->getType()); if (auto *T = dyn_cast<StoreInst>(c.I)) w = DL.getTypeSizeInBits(T->getValueOperand()->getType()); if (w != *b) continue; }
      if (auto *u = k.getObject("unless")) if (hold(S, *u, c)) continue;
      std::string m = k.getString("msg")->str(); sites[m + "|" + loc(c.I)]++; if (!hold(S, *k.getObject("need"), c)) { if (getenv("DBGO")) { errs() << "FAIL " << m << "\n  key " << S.key() << "\n"; for (size_t i = 0; i < vals.size(); i++) if (vals[i]) errs() << i << "=" << *vals[i] << "\n"; for (auto &x : ghosts) errs() << x.second << "=" << x.first << "\n"; } report(m, c.I); } } }
  std::string loc(Instruction *I) { if (auto *d = I->getDebugLoc().get()) { while (d->getInlinedAt() && (d->getFilename().starts_with("/usr") || d->getFilename().contains("c++"))) d = d->getInlinedAt(); return (d->getFilename() + ":" + Twine(d->getLine())).str(); } return "?:0"; }
  void report(const std::string &m, Instruction *I) { std::string l = loc(I); if (!found.insert(m + l).second) return; auto p = StringRef(l).rsplit(':'); findings.push_back(json::Object{{"msg", m}, {"file", p.first.str()}, {"line", std::atoi(p.second.str().c_str())}}); }
  // ---- masks with one witness bit (shard I of the shard masks, slot B of the slot masks)
  json::Object *mk = nullptr; int gI = -1, gB = -1; int gw(char w) { return w == 'I' ? gI : gB; }
  int bit(St &S, int v, char w) { if (isCst(v)) { int64_t c = constOf[v]; if (c == 0 || c == INT64_MIN) return 0; if (c == -1 || c == INT64_MAX) return 1; return -1; } auto it = S.wb.find({v, w}); return it == S.wb.end() ? -1 : it->second; }
  void split(std::vector<St> &in, int x, char w) { std::vector<St> o; for (auto &S : in) for (int m : {(int)EQ, LT | GT}) { St T = S; if (T.add(x, gw(w), m)) o.push_back(std::move(T)); } in = std::move(o); }
  void resolve(std::vector<St> &in, int v) { // a single bit at a position: is it the witness position
    for (char w : {'I', 'B'}) { std::vector<St> o; for (auto &S : in) { auto d = S.der.find(v); if (bit(S, v, w) >= 0 || d == S.der.end() || std::get<1>(d->second) != 's') { o.push_back(S); continue; } int x = std::get<0>(d->second); auto decided = [&](char u) { int r = S.get(x, gw(u)); return r == EQ || !(r & EQ); }; if (decided(w == 'I' ? 'B' : 'I') && !decided(w)) { o.push_back(S); continue; } std::vector<St> t{S}; split(t, x, w); for (auto &T : t) { int b = T.get(x, gw(w)) == EQ; T.wb[{v, w}] = b; T.low[{v, w}] = b; o.push_back(T); } } in = std::move(o); } }
  void lowest(std::vector<St> &in, int v, char w) { std::vector<St> o; for (auto &S : in) { int b = bit(S, v, w); if (b <= 0 || S.low.count({v, w})) { if (b == 0) S.low[{v, w}] = 0; o.push_back(S); continue; } for (int k : {0, 1}) { St T = S; T.low[{v, w}] = k; o.push_back(T); } } in = std::move(o); }
  bool maskOp(St &S, BinaryOperator *B, std::vector<St> &out) {
    int n = id(B), x = id(B->getOperand(0)), y = id(B->getOperand(1)); auto op = B->getOpcode(); auto isc = [&](int v, int64_t c) { return isCst(v) && constOf[v] == c; };
    if (op == Instruction::Shl && isc(x, 1)) { S.kill(n); S.der[n] = {y, 's', 0}; out.push_back(S); return true; }
    if (op == Instruction::LShr) { S.kill(n); if (n != x && n != y) S.der[n] = {x, '>', y}; std::vector<St> t; t.push_back(S); for (auto &T : t) out.push_back(T); return true; }
    if (op == Instruction::Sub && isc(x, 0)) { S.kill(n); S.der[n] = {y, 'n', 0}; out.push_back(S); return true; }
    if ((op == Instruction::Sub && isc(y, 1)) || (op == Instruction::Add && isc(y, INT64_MAX))) { if (n != x) S.der[n] = {x, 'm', 0}; return false; }
    if (op == Instruction::Xor && isc(y, INT64_MAX)) { S.kill(n); std::vector<St> t{S}; resolve(t, x); for (auto &T : t) { for (char w : {'I', 'B'}) if (bit(T, x, w) >= 0) T.wb[{n, w}] = 1 - bit(T, x, w); out.push_back(T); } return true; }
    if (op != Instruction::And && op != Instruction::Or) return false;
    auto der = [&](int v, char k) { auto d = S.der.find(v); return d != S.der.end() && std::get<1>(d->second) == k ? std::get<0>(d->second) : -1; };
    S.kill(n); std::vector<St> t{S};
    if (op == Instruction::And) {
      for (int k = 0; k < 2; k++) { int a = k ? y : x, b = k ? x : y; for (char kind : {'m', 'n'}) { int src = der(b, kind); if (src < 0 || !(src == a || S.get(src, a) == EQ)) continue; for (char w : {'I', 'B'}) lowest(t, a, w);
          for (auto &T : t) { for (char w : {'I', 'B'}) if (int o = bit(T, a, w); o >= 0) { int l = T.low[{a, w}]; T.wb[{n, w}] = kind == 'm' ? o && !l : o && l; if (kind == 'n') T.low[{n, w}] = o && l; } out.push_back(T); } return true; }
        if (isc(b, 1)) { auto d = S.der.find(a); if (d != S.der.end() && std::get<1>(d->second) == '>') { int m = std::get<0>(d->second), pos = std::get<2>(d->second); for (char w : {'I', 'B'}) if (bit(S, m, w) >= 0) split(t, pos, w);
            for (auto &T : t) { bool ok = true; for (char w : {'I', 'B'}) if (bit(T, m, w) >= 0 && T.get(pos, gw(w)) == EQ) ok = ok && T.add(n, cid(bit(T, m, w)), EQ); if (ok) out.push_back(T); } return true; } } } }
    resolve(t, x); resolve(t, y);
    for (auto &T : t) { for (char w : {'I', 'B'}) { int a = bit(T, x, w), b = bit(T, y, w), r = -1; if (op == Instruction::And) { if (a == 0 || b == 0) r = 0; else if (a == 1 && b == 1) r = 1; } else { if (a == 1 || b == 1) r = 1; else if (a == 0 && b == 0) r = 0; } if (r >= 0) T.wb[{n, w}] = r; }
      for (int o : {x, y}) { auto it = T.attr.find(o); if (it != T.attr.end()) for (auto &tg : it->second) if (StringRef(tg).starts_with("^")) T.attr[n].insert(tg); } out.push_back(T); }
    return true; }
  bool zero(St &S, int v, bool z) { if (!mk) return true; if (!z) return true; for (char w : {'I', 'B'}) { if (bit(S, v, w) == 1) return false; S.wb[{v, w}] = 0; } return true; }
  void latch(St &S) { if (!mk || S.calls.count("passed")) return; Ctx c{nullptr}; c.I = tgtI; for (int t : term(S, *mk->get("target"), c)) for (auto &a : S.attr) if (a.second.count("^wq") && S.get(a.first, t) == EQ) { S.calls.insert("passed"); return; } }
  Instruction *tgtI = nullptr;
  // ---- transfer
  std::deque<std::pair<BasicBlock *, St>> wl; std::map<BasicBlock *, std::set<std::string>> seen;
  void enter(St S, BasicBlock *from, BasicBlock *to) {
    std::vector<std::pair<int, int>> cp; for (auto &P : to->phis()) cp.push_back({id(&P), id(P.getIncomingValueForBlock(from))});
    // parallel copy through temporaries
    std::vector<int> tmp; for (size_t i = 0; i < cp.size(); i++) { int t = gid("phi" + std::to_string(i)); S.kill(t); S.copyTo(t, cp[i].second); }
    for (size_t i = 0; i < cp.size(); i++) { S.kill(cp[i].first); } for (size_t i = 0; i < cp.size(); i++) S.copyTo(cp[i].first, gid("phi" + std::to_string(i))); for (size_t i = 0; i < cp.size(); i++) S.kill(gid("phi" + std::to_string(i)));
    if (mk) { latch(S); if (S.calls.count("passed")) { sites["ret"]++; sites["every registered slot is passed before the wait ends|"]++; return; } for (auto it = S.attr.begin(); it != S.attr.end();) if ((it->second.count("^W") || it->second.count("^wq")) && !(vals[it->first] && live[to].count(vals[it->first]))) it = S.attr.erase(it); else ++it; }
    prune(S, to); if (seen[to].size() > blockCap) { if (getenv("DBGT")) errs() << "TR " << to->getName() << (void *)to << " " << S.key() << "\n"; trunc = true; return; } if (!seen[to].insert(S.key()).second) return; nst++; wl.push_back({to, std::move(S)}); }
  int boolOf(St &S, Value *v) { if (auto *c = dyn_cast<ConstantInt>(v)) return c->getZExtValue() & 1; auto it = S.bools.find(id(v)); return it == S.bools.end() ? -1 : it->second & 1; }
  void cmp(St &S, ICmpInst *C, std::vector<St> &out) {
    Value *a = C->getOperand(0), *b = C->getOperand(1); auto p = C->getPredicate(); auto isz = [](Value *v) { auto *c = dyn_cast<ConstantInt>(v); return c && c->isZero(); };
    if (isz(a) && !isz(b)) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
    if (isz(b)) { Value *x = a; while (isa<CastInst>(x) && x->getType()->isIntegerTy()) x = cast<Instruction>(x)->getOperand(0); if (auto *B = dyn_cast<BinaryOperator>(x); B && B->getOpcode() == Instruction::Sub && (ICmpInst::isSigned(p) || ICmpInst::isEquality(p))) { a = B->getOperand(0); b = B->getOperand(1); } }
    int m = 0; switch (p) { case ICmpInst::ICMP_EQ: m = EQ; break; case ICmpInst::ICMP_NE: m = LT | GT; break; case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: m = LT; break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: m = LT | EQ; break; case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: m = GT; break; default: m = GT | EQ; }
    for (int k = 0; k < 2; k++) { St T = S; T.kill(id(C)); int mm = k ? m : ALL & ~m; if (T.add(id(a), id(b), mm)) { if (mk && isz(b) && !zero(T, id(a), mm == EQ)) continue; if (mk) latch(T); T.bools[id(C)] = k; out.push_back(std::move(T)); } } }
  void pass(St &S, Instruction *I, Value *from) { int n = id(I), o = id(from); if (n == o) return; S.kill(n); S.copyTo(n, o); }
  void listStep(St &S, Instruction *I, bool isFirst, int from, std::vector<St> &out) {
    int n = id(I), R = gid("R"); int p = S.p; if (isFirst) p = 0; else if (S.get(from, R) == EQ) p = 2;
    S.kill(n);
    if (p == 0 && E.getBoolean("witness").value_or(O.getBoolean("witness").value_or(true))) { { St T = S; T.p = 1; if (T.add(n, R, EQ) && T.add(n, cid(0), GT)) out.push_back(T); } { St T = S; T.p = 0; if (T.add(n, R, LT | GT) && T.add(n, cid(0), GT)) out.push_back(T); } }
    else { { St T = S; T.p = 2; if (T.add(n, R, LT | GT) && T.add(n, cid(0), GT)) out.push_back(T); } { St T = S; T.p = 2; if (T.add(n, cid(0), EQ)) out.push_back(T); } } }
  void step(St &S, Instruction *I, std::vector<St> &out) {
    int n = I->getType()->isVoidTy() ? -1 : id(I); 
    if (auto *C = dyn_cast<ICmpInst>(I)) return cmp(S, C, out);
    if (auto *C = dyn_cast<CastInst>(I)) { Value *o = C->getOperand(0); if (isa<TruncInst>(C) && C->getType()->isIntegerTy(1)) { int b = boolOf(S, o); if (S.bools.count(id(o)) || isa<ConstantInt>(o)) { S.kill(n); S.bools[n] = b; out.push_back(S); return; } for (int k = 0; k < 2; k++) { St T = S; T.kill(n); if (T.add(id(o), cid(0), k ? LT | GT : EQ)) { T.bools[n] = k; out.push_back(T); } } return; }
      if (C->getSrcTy()->isIntegerTy(1)) { int b = boolOf(S, o); S.kill(n); if (b >= 0) S.copyTo(n, cid(b)); out.push_back(S); return; }
      if (isa<TruncInst>(C)) { auto *q = dyn_cast<IntrinsicInst>(o); if (q && q->getIntrinsicID() == Intrinsic::cttz) { pass(S, I, o); out.push_back(S); return; } S.kill(n); out.push_back(S); return; } pass(S, I, o); out.push_back(S); return; }
    if (isa<FreezeInst>(I)) { pass(S, I, I->getOperand(0)); out.push_back(S); return; }
    if (auto *L = dyn_cast<SelectInst>(I)) { int b = boolOf(S, L->getCondition()); for (int k = 0; k < 2; k++) if (b < 0 || b == k) { St T = S; pass(T, I, k ? L->getTrueValue() : L->getFalseValue()); out.push_back(T); } return; }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      Value *x = B->getOperand(0), *y = B->getOperand(1); int rel = ALL; bool dupb = false; auto *cy = dyn_cast<ConstantInt>(y);
      if (B->getType()->isIntegerTy(1)) { int a = boolOf(S, x), b = boolOf(S, y); S.kill(n); int r = -1; if (B->getOpcode() == Instruction::Xor) { if (a >= 0 && b >= 0) r = a ^ b; } else if (B->getOpcode() == Instruction::And) { if (a == 0 || b == 0) r = 0; else if (a == 1 && b == 1) r = 1; } else if (B->getOpcode() == Instruction::Or) { if (a == 1 || b == 1) r = 1; else if (a == 0 && b == 0) r = 0; } if (r >= 0) { S.bools[n] = r; out.push_back(S); } else for (int k = 0; k < 2; k++) { St T = S; T.bools[n] = k; out.push_back(T); } return; }
      if (mk && x != I && y != I && maskOp(S, B, out)) return;
      { auto d = S.der.find(n); auto keepd = d == S.der.end() ? std::tuple<int, char, int>{-1, ' ', 0} : d->second; S.kill(n); if (mk && std::get<0>(keepd) >= 0 && std::get<1>(keepd) == 'm') S.der[n] = keepd; }
      if (cy && cy->getBitWidth() <= 64 && !cy->isZero() && B->getOpcode() == Instruction::Add) rel = cy->isNegative() ? LT : GT;
      if (cy && cy->getBitWidth() <= 64 && !cy->isZero() && B->getOpcode() == Instruction::Sub) rel = cy->isNegative() ? GT : LT;
      if (rel != ALL && x != I && !isCst(id(x))) { if (!S.add(n, id(x), rel)) return; bool up = rel == GT; if (cy->isOne() && B->getOpcode() == (up ? Instruction::Add : Instruction::Sub)) { std::vector<int> nb; std::set<int> seenv; for (auto &e : S.rel) for (int z : {e.first.first, e.first.second}) if (seenv.insert(z).second && z != n) nb.push_back(z); for (auto &c : consts) if (seenv.insert(c.second).second) nb.push_back(c.second); for (int z : nb) if (S.get(id(x), z) == (up ? LT : GT) && !S.add(n, z, up ? LT | EQ : GT | EQ)) return; } }
      if (B->getOpcode() == Instruction::URem && cy) if (auto *A = dyn_cast<BinaryOperator>(x); A && A->getOpcode() == Instruction::Add) if (auto *ck = dyn_cast<ConstantInt>(A->getOperand(1))) S.shift[n] = {id(A->getOperand(0)), (int)(ck->getZExtValue() % cy->getZExtValue())};
      if (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::LShr) for (Value *o : {x, y}) { auto it = S.attr.find(id(o)); if (it != S.attr.end()) for (auto &t : it->second) if (StringRef(t).starts_with("^")) S.attr[n].insert(t); }
      out.push_back(S); return; }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Addr a = addrOf(L->getPointerOperand()); int b = id(a.base); Ctx c{I}; c.base = b; c.idx = a.idx ? id(a.idx) : -1;
      if (getenv("DBGO")) { errs() << "load "; for (auto &x : a.names) errs() << x << " "; errs() << *I << "\n"; }
      if (bool fs = inF(a, first); fs || inF(a, next)) { // the list is taken as it was first seen: reading a link again gives the same entry
        int cv = -1; auto it = S.cell.find({b, a.off}); if (it != S.cell.end()) cv = it->second; else for (auto &q : S.cell) if (q.first.second == a.off && S.get(q.first.first, b) == EQ) { cv = q.second; break; }
        if (cv >= 0 && cv != n) { S.kill(n); S.copyTo(n, cv); out.push_back(S); return; } if (cv == n) { out.push_back(S); return; }
        size_t k = out.size(); listStep(S, I, fs, b, out); for (; k < out.size(); k++) out[k].cell[{b, a.off}] = n; return; }
      if (auto *g = dyn_cast<GlobalVariable>(a.base); g && a.idx) { int k = shiftOfTable(g); if (k >= 0 && neverWritten(g)) { int ix = id(a.idx); S.kill(n); S.shift[n] = {ix, k}; out.push_back(S); return; } }
      if (mk && isa<AllocaInst>(a.base) && a.idx) { int g = gid("W:" + std::to_string(b)); std::vector<St> t{S}; split(t, id(a.idx), 'I'); for (auto &T : t) { bool me = T.get(id(a.idx), gI) == EQ; T.kill(n); if (me) T.copyTo(n, g); out.push_back(T); } return; }
      if (mk && a.idxs.size() == 1 && isF(a, mk->getString("bitmap")->str())) { std::vector<St> t{S}; split(t, id(a.idx), 'I'); for (auto &T : t) { bool me = T.get(id(a.idx), gI) == EQ; T.kill(n); for (auto &tg : tagf) if (isF(a, tg.first)) T.attr[n].insert(tg.second); if (me) T.wb[{n, 'B'}] = 1; c.val = n; check(T, "load", "", &a, c); out.push_back(T); } return; } // the witness is registered when the wait begins
      if (mk && a.idxs.size() == 2 && isF(a, mk->getString("slots")->str())) { std::vector<St> t{S}; split(t, id(a.idxs[1]), 'I'); split(t, id(a.idxs[0]), 'B'); for (auto &T : t) { bool me = T.get(id(a.idxs[1]), gI) == EQ && T.get(id(a.idxs[0]), gB) == EQ; T.kill(n); if (me) T.attr[n].insert("^W"); c.val = n; check(T, "load", "", &a, c); out.push_back(T); } return; }
      bool wq = false; if (mk && isF(a, mk->getString("state")->str())) { auto it = S.attr.find(b); wq = it != S.attr.end() && it->second.count("^W"); }
      bool vol = inF(a, volat) || a.idx; int cv = -1;
      if (!vol) { auto it = S.cell.find({b, a.off}); if (it != S.cell.end()) cv = it->second; else for (auto &q : S.cell) if (q.first.second == a.off && S.get(q.first.first, b) == EQ) { cv = q.second; break; } }
      if (cv == n) cv = -1; bool hit = cv >= 0; S.kill(n); // cv survives: it is another value
      if (hit) S.copyTo(n, cv);
      if (inF(a, wfield)) { if (S.get(b, gid("R")) == EQ || E.getBoolean("witness_any").value_or(false)) if (!S.add(n, gid("r"), EQ)) return; }
      for (auto &t : tagf) if (isF(a, t.first)) S.attr[n].insert(t.second);
      if (wq) S.attr[n].insert("^wq");
      if (!vol && !hit) S.cell[{b, a.off}] = n;
      S.origin[n] = {b, a.names.empty() ? "" : a.names[0]};
      for (auto &k : keepl) { auto [f, w] = StringRef(k).split('#'); if (isF(a, f.str()) && (w.empty() || std::to_string(DL.getTypeSizeInBits(L->getType())) == w.str())) S.stored["<" + k] = {b, n}; }
      for (auto *X : {&O, &E}) if (auto *as = X->getArray("assume")) for (auto &av : *as) { auto &q = *av.getAsObject(); std::string f = q.getString("field")->str(), key = "?" + f; // a fact about the first value read since the last reset
        if (auto rs = q.getString("reset")) if (isF(a, rs->str())) S.calls.erase(key);
        if (isF(a, f) && S.calls.insert(key).second) { auto &rl = *q.getArray("rel"); Ctx c2{I}; c2.val = n; StringRef op = *rl[1].getAsString(); bool ok = true; for (int x : term(S, rl[0], c2)) for (int y : term(S, rl[2], c2)) ok = ok && S.add(x, y, op == "==" ? EQ : op == "!=" ? LT | GT : op == "<" ? LT : LT | EQ); if (!ok) return; } }
      c.val = n; check(S, "load", "", &a, c); out.push_back(S); return; }
    auto doStore = [&](St &S, Value *ptr, int v, Ctx &c) {
      Addr a = addrOf(ptr); int b = id(a.base); c.base = b; c.val = v; if (getenv("DBGO")) { errs() << "store "; for (auto &n : a.names) errs() << n << " "; errs() << *c.I << "\n"; } c.idx = a.idx ? id(a.idx) : -1;
      check(S, "store", "", &a, c);
      for (auto it = S.cell.begin(); it != S.cell.end();) { bool same = it->first.second == a.off || a.idx; if (same && mayAlias(it->first.first, b) && it->first.first != b && !(vals[b] && isa<AllocaInst>(vals[b])) && !(vals[it->first.first] && isa<AllocaInst>(vals[it->first.first])) && S.get(it->first.first, b) & EQ && S.get(it->first.first, b) != EQ) it = S.cell.erase(it); else ++it; }
      if (!a.idx) { S.cell[{b, a.off}] = v; for (auto &q : S.cell) if (q.first.second == a.off && S.get(q.first.first, b) == EQ) q.second = v; }
      for (auto &k : keepf) { auto [f, w] = StringRef(k).split('#'); if (isF(a, f.str()) && (w.empty() || std::to_string(DL.getTypeSizeInBits(storedTy(c.I))) == w.str())) { S.stored[k] = {b, v}; if (c.idx >= 0) { S.stored["#" + k] = {b, c.idx}; S.stored["$" + k] = {b, id(a.idxs[0])}; } } } };
    if (auto *T = dyn_cast<StoreInst>(I); T && mk) { Addr a = addrOf(T->getPointerOperand()); if (isa<AllocaInst>(a.base) && a.idx) { int g = gid("W:" + std::to_string(id(a.base))), v = id(T->getValueOperand()); Ctx c{I}; c.val = v; c.base = id(a.base); c.idx = id(a.idx); check(S, "store", "", &a, c); std::vector<St> t{S}; split(t, id(a.idx), 'I'); for (auto &U : t) { if (U.get(id(a.idx), gI) == EQ) { U.kill(g); U.copyTo(g, v); } out.push_back(U); } return; } }
    if (auto *T = dyn_cast<StoreInst>(I)) { Ctx c{I}; if (T->getValueOperand()->getType()->isIntOrPtrTy()) doStore(S, T->getPointerOperand(), id(T->getValueOperand()), c); out.push_back(S); return; }
    if (auto *R = dyn_cast<AtomicRMWInst>(I)) { Addr a = addrOf(R->getPointerOperand()); Ctx c{I}; c.base = id(a.base); c.old = n; c.val = id(R->getValOperand()); S.kill(n); check(S, "rmw", AtomicRMWInst::getOperationName(R->getOperation()).str(), &a, c); for (auto &t : tagf) if (isF(a, t.first)) S.attr[n].insert(t.second); S.cell.erase({id(a.base), a.off}); if (R->getOperation() == AtomicRMWInst::Xchg) doStore(S, R->getPointerOperand(), c.val, c); for (auto &k : keepf) if (isF(a, k)) S.stored[k] = {c.base, c.val};
      if (mk && a.idxs.size() == 1 && isF(a, mk->getString("bitmap")->str())) { std::vector<St> t{S}; split(t, id(a.idx), 'I'); for (auto &T : t) { if (T.get(id(a.idx), gI) != EQ) { out.push_back(T); continue; } for (int k : {0, 1}) { St U = T; U.wb[{n, 'B'}] = k; if (!k) U.calls.insert("passed"); out.push_back(U); } } return; } // the witness may have left
      out.push_back(S); return; }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) { Addr a = addrOf(X->getPointerOperand()); Ctx c{I}; c.base = id(a.base); c.old = id(X->getCompareOperand()); c.val = id(X->getNewValOperand()); check(S, "cas", "", &a, c); S.kill(n); S.cell.erase({id(a.base), a.off}); { St T = S; T.bools[n] = 1; for (auto &k : keepf) if (isF(a, k)) T.stored[k] = {c.base, c.val}; out.push_back(T); } { St T = S; T.bools[n] = 0; out.push_back(T); } return; }
    if (auto *X = dyn_cast<ExtractValueInst>(I)) { S.kill(n); if (auto *c = dyn_cast<AtomicCmpXchgInst>(X->getAggregateOperand())) { int b = S.bools.count(id(c)) ? S.bools[id(c)] : -1; if (X->getIndices()[0] == 1 && b >= 0) S.bools[n] = b; if (X->getIndices()[0] == 0 && id(c->getCompareOperand()) != n && (b == 1 || (b == 0 && !c->isWeak()))) if (!S.add(n, id(c->getCompareOperand()), b ? EQ : LT | GT)) return; } out.push_back(S); return; } // the word read by a compare-and-swap is the expected one exactly when it succeeded
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (isa<DbgInfoIntrinsic>(I)) { out.push_back(S); return; }
      Function *F = CB->getCalledFunction(); std::string nm = F ? (F->isIntrinsic() ? F->getName().str() : normName(F->getName())) : "?"; Ctx c{I}; c.CB = CB; if (getenv("DBGO")) errs() << "call " << nm << "\n";
      if (F && (F->getIntrinsicID() == Intrinsic::expect)) { pass(S, I, CB->getArgOperand(0)); if (I->getType()->isIntegerTy(1)) { int b = boolOf(S, CB->getArgOperand(0)); if (b >= 0) S.bools[n] = b; } out.push_back(S); return; }
      if (F && (F->getIntrinsicID() == Intrinsic::umin || F->getIntrinsicID() == Intrinsic::smin)) { int x = id(CB->getArgOperand(0)), y = id(CB->getArgOperand(1)); { St T = S; if (T.add(x, y, LT | EQ)) { T.kill(n); T.copyTo(n, x); out.push_back(T); } } { St T = S; if (T.add(x, y, GT)) { T.kill(n); T.copyTo(n, y); out.push_back(T); } } return; }
      if (mk && F && F->getIntrinsicID() == Intrinsic::cttz) { int v = id(CB->getArgOperand(0)); S.kill(n); std::vector<St> t{S}; resolve(t, v); for (char w : {'I', 'B'}) lowest(t, v, w); for (auto &T : t) { bool ok = true; for (char w : {'I', 'B'}) if (bit(T, v, w) >= 0) ok = ok && T.add(n, gw(w), T.low[{v, w}] ? EQ : LT | GT); if (ok) out.push_back(T); } return; }
      for (auto &f : first) if (globMatch(f, nm)) { listStep(S, I, true, -1, out); return; }
      for (auto &f : next) if (globMatch(f, nm)) { int from = id(CB->getArgOperand(0)); listStep(S, I, false, from, out); return; }
      check(S, "call", nm, nullptr, c); for (auto &k : keepf) if (globMatch(k, nm)) S.calls.insert(k);
      if (CB->doesNotReturn()) return;
      for (unsigned i = 0; i < CB->arg_size(); i++) if (auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(i)->stripPointerCasts()); A && !(F && F->isIntrinsic())) { for (auto it = S.cell.begin(); it != S.cell.end();) if (it->first.first == id(A)) it = S.cell.erase(it); else ++it; }
      if (n >= 0) S.kill(n); out.push_back(S); return; }
    if (n >= 0) { S.kill(n); if (isa<AllocaInst>(I)) S.add(n, cid(0), GT); }
    out.push_back(S); }
  void run(Function &F) {
    first = strs("first"); next = strs("next"); wfield = strs("witness_field"); volat = strs("volatile"); keepf = strs("keep"); keepl = strs("keep_load"); for (auto *X : {&O, &E}) if (auto *o = X->getObject("tags")) for (auto &t : *o) tagf[t.first.str()] = t.second.getAsString()->str();
    for (auto *X : {&O, &E}) if (auto *a = X->getArray("anchors")) for (auto &x : *a) offsetOf(x.getAsString()->str());
    blockCap = O.getInteger("block_cap").value_or(4000); buildPointees(); gid("r"); gid("R"); cid(0); mk = E.getObject("masks"); if (mk) { gI = gid("I"); gB = gid("B"); tgtI = &F.getEntryBlock().front(); } computeLive(F); St S0; bool ok = true; for (auto *X : {&O, &E}) if (auto *a = X->getArray("facts")) for (auto &fv : *a) { auto &f = *fv.getAsArray(); Ctx c{&F.getEntryBlock().front()}; StringRef op = *f[1].getAsString(); int m = op == "<" ? LT : op == "!=" ? LT | GT : op == "==" ? EQ : op == ">" ? GT : LT | EQ; for (int x : term(S0, f[0], c)) for (int y : term(S0, f[2], c)) ok = S0.add(x, y, m) && ok; }
    wl.push_back({&F.getEntryBlock(), S0}); 
    while (!wl.empty()) { auto [B, S] = std::move(wl.front()); wl.pop_front(); std::vector<St> cur{S};
      for (auto &I : *B) { if (isa<PHINode>(I)) continue; if (I.isTerminator() && !isa<InvokeInst>(I)) {
          for (auto &T : cur) {
            if (auto *Br = dyn_cast<BranchInst>(&I)) { if (!Br->isConditional()) enter(T, B, Br->getSuccessor(0)); else { int b = boolOf(T, Br->getCondition()); if (b != 0) enter(T, B, Br->getSuccessor(0)); if (b != 1) enter(T, B, Br->getSuccessor(1)); } }
            else if (auto *Sw = dyn_cast<SwitchInst>(&I)) { int v = id(Sw->getCondition()); St D = T; bool dl = true; for (auto &cs : Sw->cases()) { int k = cid(cs.getCaseValue()->getZExtValue()); St U = T; if (U.add(v, k, EQ)) enter(U, B, cs.getCaseSuccessor()); if (dl) dl = D.add(v, k, LT | GT); } if (dl) enter(D, B, Sw->getDefaultDest()); }
            else if (auto *R = dyn_cast<ReturnInst>(&I)) { Ctx c{&I}; if (R->getReturnValue()) c.ret = id(R->getReturnValue()); check(T, "ret", "", nullptr, c); sites["ret"]++; } }
          break; }
        std::vector<St> nx; for (auto &T : cur) step(T, &I, nx); if (nx.size() > 1) { std::set<std::string> ks; std::vector<St> u; for (auto &x : nx) if (ks.insert(x.key()).second) u.push_back(std::move(x)); nx = std::move(u); } cur = std::move(nx);
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { for (auto &T : cur) enter(T, B, IV->getNormalDest()); break; } } }
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv); LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(BCF, Err, Ctx); if (!M) { Err.print("orders", errs()); return 3; }
  auto buf = MemoryBuffer::getFile(SpecF); if (!buf) return 3; auto spec = json::parse((*buf)->getBuffer()); if (!spec) { errs() << "bad spec\n"; return 3; } auto &O = *spec->getAsObject();
  FieldTable FT; FT.build(*M); std::set<std::string> op; if (auto *a = O.getArray("opaque")) for (auto &x : *a) op.insert(x.getAsString()->str());
  for (auto &F : *M) if (!F.isDeclaration()) { std::string nn = normName(F.getName()); bool k = false; for (auto &x : op) if (globMatch(x, nn)) k = true; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(k ? Attribute::NoInline : Attribute::AlwaysInline); if (k) { } if (!F.hasLocalLinkage() && !k) F.setLinkage(GlobalValue::ExternalLinkage), F.setComdat(nullptr); }
  // writes to guarded words anywhere outside the analysed entries
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    for (auto &F : *M) for (auto &B : F) { std::vector<InvokeInst *> iv; if (auto *I = dyn_cast<InvokeInst>(B.getTerminator())) iv.push_back(I); for (auto *I : iv) changeToCall(I); }
    for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM); }
  if (!Dump.empty()) { if (auto *F = M->getFunction(Dump)) F->print(outs()); return 0; }
  json::Array res; for (auto &ev : *O.getArray("entries")) { auto &e = *ev.getAsObject(); std::string fn = e.getString("fn")->str(); json::Object ro; ro["fn"] = fn; Function *F = M->getFunction(fn); if (!F || F->isDeclaration()) { ro["error"] = "missing"; res.push_back(std::move(ro)); continue; }
    vals.clear(); vid.clear(); ghosts.clear(); consts.clear(); constOf.clear(); An A(*M, FT, O, e); A.run(*F); ro["states"] = (int64_t)A.nst; ro["truncated"] = A.trunc; ro["findings"] = json::Array(std::move(A.findings)); json::Array s; int ob = 0; for (auto &x : A.sites) { if (x.first == "ret") { ro["returns"] = x.second; continue; } ob++; s.push_back(x.first); } ro["obligations"] = ob; ro["sites"] = std::move(s); if (!A.badAnchor.empty()) ro["error"] = "anchor not found: " + A.badAnchor; res.push_back(std::move(ro)); }
  std::string s; raw_string_ostream os(s); os << formatv("{0:2}", json::Value(std::move(res))); if (OutF == "-") outs() << os.str() << "\n"; else { std::error_code ec; raw_fd_ostream f(OutF, ec); f << os.str() << "\n"; } return 0;
}
