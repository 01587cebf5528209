// words: path summaries of small lock-word primitives over an abstract word domain.
// A word is a vector of bits; a bit is 0, 1, or bit i of (field symbol + offset).  Flag fields are one bit wide
// and are case-split when an operation depends on them; counter fields keep "symbol + constant".  No solver.
#include "prep.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <deque>
static cl::opt<std::string> SpecF("spec", cl::Required), BCF("bc", cl::Required), OutF("out", cl::init("-"));

struct Bit { int k = 0; int s = -1, i = 0; int64_t o = 0; int s2 = -1, i2 = 0; int64_t o2 = 0; };
static bool operator==(const Bit &a, const Bit &b) { return a.k == b.k && a.s == b.s && a.i == b.i && a.o == b.o && a.s2 == b.s2 && a.i2 == b.i2 && a.o2 == b.o2; }
using Val = std::vector<Bit>;
struct Sym { std::string name; unsigned w; };
static std::vector<Sym> syms;
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int newSym(const std::string &n, unsigned w) { syms.push_back({n, w}); return syms.size() - 1; }
static Val symVal(int s, unsigned w) { Val v(w); for (unsigned i = 0; i < w; i++) { v[i].k = 2; v[i].s = s; v[i].i = i; } return v; }
static Val constVal(uint64_t c, unsigned w) { Val v(w); for (unsigned i = 0; i < w; i++) v[i].k = i < 64 ? (c >> i) & 1 : 0; return v; }
static int freshN = 0;
static Val freshVal(unsigned w, const std::string &n) { return symVal(newSym(n + "'" + std::to_string(freshN++), w), w); }
static Val catVal(const std::vector<Val> &p) { Val r; for (auto &x : p) r.insert(r.end(), x.begin(), x.end()); return r; }

struct Layout { std::vector<std::pair<std::string, unsigned>> f; }; // low to high
static std::map<std::string, Layout> layouts;
static Val layoutVal(const std::string &l, const std::string &nm) {
  std::vector<Val> p; for (auto &f : layouts[l].f) { if (f.first == "0") p.push_back(constVal(0, f.second)); else p.push_back(symVal(newSym(nm + "." + f.first, f.second), f.second)); } return catVal(p);
}

struct Fork { int s; };           // thrown: split on a one-bit symbol
struct Bind { bool isC; uint64_t c; int s; int64_t o; };
struct Event { std::string kind, loc, ord; Val oldv, newv; unsigned line; std::string file, what; };
struct St {
  BasicBlock *bb; BasicBlock::iterator it; BasicBlock *prev = nullptr;
  DenseMap<Value *, Val> env; DenseMap<Value *, std::vector<Val>> agg;
  std::map<std::string, Val> mem; std::map<int, Bind> sub; std::vector<std::pair<Val, Val>> neq;
  std::vector<Event> ev; std::map<BasicBlock *, int> visits; int loads = 0;
};
static Bit canonB(const St &S, Bit b) {
  auto res = [&](int &s, int64_t &o, int i, int &outc) { outc = -1; while (true) { auto it = S.sub.find(s); if (it == S.sub.end()) break; if (it->second.isC) { outc = ((it->second.c + (uint64_t)o) & maskw(syms[s].w)) >> i & 1; return; } o += it->second.o; s = it->second.s; } o = (int64_t)((uint64_t)o & maskw(syms[s].w)); };
  if (b.k == 2) { int c; res(b.s, b.o, b.i, c); if (c >= 0) { Bit r; r.k = c; return r; } if (syms[b.s].w == 1 && b.o) {} return b; }
  if (b.k == 3) { int c1, c2; res(b.s, b.o, b.i, c1); res(b.s2, b.o2, b.i2, c2); Bit r;
    if (c1 >= 0 && c2 >= 0) { r.k = c1 ^ c2; return r; }
    if (c1 < 0 && c2 < 0) { if (b.s == b.s2 && b.o == b.o2 && b.i == b.i2) { r.k = 0; return r; } return b; }
    int c = c1 >= 0 ? c1 : c2; Bit q; q.k = 2; if (c1 < 0) { q.s = b.s; q.o = b.o; q.i = b.i; } else { q.s = b.s2; q.o = b.o2; q.i = b.i2; }
    if (c == 0) return q; if (syms[q.s].w == 1) throw Fork{q.s}; return b; }
  return b;
}
static Val canon(const St &S, const Val &v) { Val r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = canonB(S, v[i]); return r; }
static bool isC(const Val &v, uint64_t *c = nullptr) { uint64_t x = 0; for (size_t i = 0; i < v.size(); i++) { if (v[i].k > 1) return false; if (i < 64 && v[i].k) x |= 1ull << i; } if (c) *c = x; return true; }
static size_t runLen(const Val &v, size_t i) { size_t n = 1; while (i + n < v.size() && v[i + n].k == 2 && v[i + n].s == v[i].s && v[i + n].o == v[i].o && v[i + n].i == v[i].i + (int)n) n++; return n; }
static std::string str(const Val &v) {
  std::string r; size_t i = 0; while (i < v.size()) {
    if (!r.empty()) r += ",";
    if (v[i].k <= 1) { size_t n = 0; uint64_t c = 0; while (i + n < v.size() && v[i + n].k <= 1) { if (n < 64) c |= (uint64_t)v[i + n].k << n; n++; } r += "#" + std::to_string(n) + ":" + std::to_string(c); i += n; }
    else if (v[i].k == 2) { size_t n = runLen(v, i); r += syms[v[i].s].name + "+" + std::to_string(v[i].o) + "[" + std::to_string(v[i].i) + ":" + std::to_string(n) + "]"; i += n; }
    else { r += "x"; i++; } }
  return r;
}
static json::Value js(const Val &v) {
  json::Array a; size_t i = 0; while (i < v.size()) {
    if (v[i].k <= 1) { a.push_back(json::Array{"c", (int64_t)1, (int64_t)v[i].k}); i++; }
    else if (v[i].k == 2) { size_t n = runLen(v, i); a.push_back(json::Array{"s", (int64_t)n, syms[v[i].s].name, v[i].o, (int64_t)v[i].i, (int64_t)syms[v[i].s].w}); i += n; }
    else { a.push_back(json::Array{"x", (int64_t)1}); i++; } }
  return a;
}
// definite relation: 1 equal, 0 different, -1 unknown
static int rel(const Val &a, const Val &b) {
  bool all = true; size_t n = a.size();
  for (size_t i = 0; i < n; i++) { if (a[i] == b[i]) continue; if (a[i].k <= 1 && b[i].k <= 1) return 0; all = false; }
  if (all) return 1;
  for (size_t i = 0; i < n;) { if (a[i].k == 2 && b[i].k == 2) { size_t l = std::min(runLen(a, i), runLen(b, i)); if (a[i].s == b[i].s && a[i].i == 0 && b[i].i == 0 && a[i].o != b[i].o && l == syms[a[i].s].w) return 0; i += l; } else i++; }
  return -1;
}
static bool consistent(St &S) { for (auto &p : S.neq) if (rel(canon(S, p.first), canon(S, p.second)) == 1) return false; return true; }
static void bindTo(St &S, int s, bool c, uint64_t cv, int t, int64_t o) { Bind b{c, cv & maskw(syms[s].w), t, o}; S.sub[s] = b; }
// make a == b in S; false if contradictory
static bool unify(St &S, const Val &a0, const Val &b0) {
  for (int round = 0; round < 70; round++) {
    Val a = canon(S, a0), b = canon(S, b0); int r = rel(a, b); if (r == 0) return false; if (r == 1) return consistent(S);
    bool did = false;
    for (size_t i = 0; i < a.size() && !did;) {
      if (a[i] == b[i]) { i++; continue; }
      Bit x = a[i], y = b[i];
      if (x.k == 3 || y.k == 3) { if (y.k == 3) std::swap(x, y); if (y.k == 0 && x.i == 0 && x.i2 == 0 && syms[x.s].w == syms[x.s2].w) { bindTo(S, x.s, false, 0, x.s2, x.o2 - x.o); did = true; } i++; continue; }
      if (x.k == 2 && y.k == 2) { size_t l = std::min(runLen(a, i), runLen(b, i)); if (x.i == 0 && y.i == 0 && l == syms[x.s].w && l == syms[y.s].w) { bindTo(S, x.s, false, 0, y.s, y.o - x.o); did = true; } else if (x.i == 0 && l == syms[x.s].w) {  // x is whole, y is a slice of something: no exact form
          } i += l; continue; }
      const Val &vs = x.k == 2 ? a : b, &vc = x.k == 2 ? b : a; Bit z = vs[i];
      if (z.k != 2) { i++; continue; }
      size_t l = runLen(vs, i); if (z.i == 0 && l == syms[z.s].w) { uint64_t c = 0; bool ok = true; for (size_t j = 0; j < l; j++) { if (vc[i + j].k > 1) { ok = false; break; } if (j < 64) c |= (uint64_t)vc[i + j].k << j; } if (ok) { bindTo(S, z.s, true, c - (uint64_t)z.o, -1, 0); did = true; } }
      i += l;
    }
    if (!did) return consistent(S);
  }
  return consistent(S);
}
static bool addNeq(St &S, const Val &a0, const Val &b0) {
  Val a = canon(S, a0), b = canon(S, b0); int r = rel(a, b); if (r == 1) return false; if (r == 0) return true;
  int cnt = 0; size_t at = 0; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) { cnt++; at = i; }
  if (cnt == 1) { Bit x = a[at], y = b[at]; if (x.k <= 1) std::swap(x, y); if (x.k == 2 && y.k <= 1 && syms[x.s].w == 1) { bindTo(S, x.s, true, (uint64_t)(1 - y.k) - (uint64_t)x.o, -1, 0); return consistent(S); } }
  S.neq.push_back({a, b}); return true;
}
static Val addC(St &S, const Val &a, uint64_t c) {
  Val r = a; unsigned carry = 0; size_t n = a.size(); size_t i = 0;
  while (i < n) {
    if (a[i].k <= 1) { unsigned t = a[i].k + (i < 64 ? (c >> i & 1) : 0) + carry; r[i] = Bit(); r[i].k = t & 1; carry = t >> 1; i++; continue; }
    if (a[i].k == 3) return freshVal(n, "t");
    size_t l = runLen(a, i); uint64_t sl = (c >> i) & maskw(l); unsigned w = syms[a[i].s].w;
    if (sl == 0 && carry == 0) { i += l; continue; }
    if (sl == maskw(l) && carry == 1) { i += l; continue; }
    if (w == 1) throw Fork{a[i].s};
    if (a[i].i != 0 || (l != w && i + l != n)) return freshVal(n, "t");
    uint64_t d = sl + carry; for (size_t j = 0; j < l; j++) r[i + j].o = (int64_t)((uint64_t)(a[i + j].o + d) & maskw(w));
    carry = l < 64 && (sl >> (l - 1) & 1) ? 1 : 0; i += l;
  }
  return r;
}
static Val addV(St &S, const Val &a, const Val &b) {
  uint64_t c; if (isC(b, &c)) return addC(S, a, c); if (isC(a, &c)) return addC(S, b, c);
  bool dis = true; for (size_t i = 0; i < a.size(); i++) if (!(a[i].k == 0 || b[i].k == 0)) dis = false;
  if (dis) { Val r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i].k == 0 ? b[i] : a[i]; return r; }
  for (auto *v : {&b, &a}) { bool flags = true; int f = -1; for (auto &x : *v) { if (x.k <= 1) continue; if (x.k == 2 && syms[x.s].w == 1) { if (f < 0) f = x.s; } else flags = false; } if (flags && f >= 0) throw Fork{f}; }
  return freshVal(a.size(), "t");
}
static Bit freshBit() { return freshVal(1, "b")[0]; }
static Bit andB(Bit a, Bit b) { if (a.k == 0 || b.k == 0) return Bit(); if (a.k == 1) return b; if (b.k == 1) return a; if (a == b) return a; if (a.k == 2 && syms[a.s].w == 1) throw Fork{a.s}; if (b.k == 2 && syms[b.s].w == 1) throw Fork{b.s}; return freshBit(); }
static Bit orB(Bit a, Bit b) { Bit one; one.k = 1; if (a.k == 1 || b.k == 1) return one; if (a.k == 0) return b; if (b.k == 0) return a; if (a == b) return a; if (a.k == 2 && syms[a.s].w == 1) throw Fork{a.s}; if (b.k == 2 && syms[b.s].w == 1) throw Fork{b.s}; return freshBit(); }
static Bit xorB(Bit a, Bit b) { if (a == b) return Bit(); if (a.k == 0) return b; if (b.k == 0) return a; if (a.k <= 1 && b.k <= 1) { Bit r; r.k = a.k ^ b.k; return r; } if (a.k == 2 && b.k == 2) { Bit r; r.k = 3; r.s = a.s; r.i = a.i; r.o = a.o; r.s2 = b.s; r.i2 = b.i; r.o2 = b.o; return r; } if (a.k == 2 && syms[a.s].w == 1) throw Fork{a.s}; if (b.k == 2 && syms[b.s].w == 1) throw Fork{b.s}; return freshBit(); }

struct Cell { std::string name, layout; bool stable = false, plain = false; unsigned w = 64; };
struct Run {
  Module &M; const DataLayout &DL; FieldTable &FT; std::map<std::string, Cell> cells; std::map<std::string, std::string> lnames; // address -> cell
  std::map<std::string, Val> init; std::vector<json::Value> paths; unsigned cap = 60000, npaths = 0, steps = 0, cut = 0; int loopLimit = 3; std::string err;
  Run(Module &m, FieldTable &ft) : M(m), DL(m.getDataLayout()), FT(ft) {}
  unsigned wid(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); return DL.getTypeSizeInBits(T).getFixedValue(); }
  Val get(St &S, Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return constVal(c->getValue().getLimitedValue() & maskw(c->getBitWidth()), c->getBitWidth());
    if (isa<ConstantPointerNull>(v)) return constVal(0, 64);
    if (isa<UndefValue>(v)) return freshVal(wid(v->getType()), "undef");
    if (auto *ce = dyn_cast<ConstantExpr>(v)) { if (ce->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, o)) return addC(S, get(S, ce->getOperand(0)), o.getZExtValue()); } return freshVal(wid(v->getType()), "ce"); }
    if (auto *g = dyn_cast<GlobalValue>(v)) { static std::map<GlobalValue *, Val> gm; auto it = gm.find(g); if (it == gm.end()) it = gm.emplace(g, catVal({symVal(newSym("@" + g->getName().str(), 63), 63), constVal(0, 1)})).first; return it->second; }
    auto it = S.env.find(v); if (it != S.env.end()) return canon(S, it->second);
    return freshVal(wid(v->getType()), "u");
  }
  const Cell *cellOf(const std::string &a) { auto it = cells.find(a); return it == cells.end() ? nullptr : &it->second; }
  std::string locName(const std::string &a) { auto c = cellOf(a); return c ? c->name : a; }
  static const char *ord(AtomicOrdering o) { return toIRString(o); }
  void event(St &S, Instruction *I, const char *k, const std::string &loc, AtomicOrdering o, const Val &a, const Val &b, const std::string &what = "") {
    Event e; e.kind = k; e.loc = locName(loc); e.ord = ord(o); e.oldv = a; e.newv = b; e.line = 0; e.what = what;
    if (const DILocation *d = I->getDebugLoc().get()) { while (d->getInlinedAt() && (d->getFilename().starts_with("/usr") || d->getFilename().contains("include/c++") || d->getFilename().contains("/stubs/"))) d = d->getInlinedAt(); e.line = d->getLine(); e.file = d->getFilename().str(); }
    S.ev.push_back(e);
  }
  Val readCell(St &S, const std::string &a, unsigned w, bool atomic) {
    auto *c = cellOf(a);
    if (c && !c->stable && !(c->plain && S.mem.count(a))) return (c->layout.empty() ? freshVal(w, c->name) : layoutVal(c->layout, c->name + "@" + std::to_string(++S.loads)));
    auto it = S.mem.find(a); if (it != S.mem.end() && (c || !atomic || true)) { Val v = canon(S, it->second); if (v.size() == w) return v; if (v.size() > w) { v.resize(w); return v; } return freshVal(w, "m"); }
    Val v; auto ii = init.find(a); if (ii != init.end()) v = canon(S, ii->second); else v = freshVal(w, "mem(" + a + ")");
    if (v.size() > w) v.resize(w); if (v.size() < w) v = freshVal(w, "m");
    S.mem[a] = v; return v;
  }
  void writeCell(St &S, const std::string &a, const Val &v) { auto *c = cellOf(a); if (!c || c->stable || c->plain) S.mem[a] = v; }
  void finish(St &S, ReturnInst *R) {
    npaths++; json::Array ev; for (auto &e : S.ev) ev.push_back(json::Object{{"k", e.kind}, {"loc", e.loc}, {"ord", e.ord}, {"old", js(canonSafe(S, e.oldv))}, {"new", js(canonSafe(S, e.newv))}, {"line", (int64_t)e.line}, {"file", e.file}, {"what", e.what}});
    json::Object o; o["ev"] = std::move(ev); if (R && R->getReturnValue() && !R->getReturnValue()->getType()->isStructTy()) o["ret"] = js(canonSafe(S, get(S, R->getReturnValue())));
    json::Object mm; for (auto &p : S.mem) if (auto it = lnames.find(p.first); it != lnames.end()) mm[it->second] = js(canonSafe(S, p.second)); else if (auto *c = cellOf(p.first)) mm[c->name] = js(canonSafe(S, p.second));
    for (auto &p : init) { auto it = lnames.find(p.first); std::string n = it != lnames.end() ? it->second : locName(p.first); if (!mm.get(n)) mm[n] = js(canonSafe(S, p.second)); }
    o["mem"] = std::move(mm); json::Array nq; for (auto &p : S.neq) nq.push_back(json::Array{js(canonSafe(S, p.first)), js(canonSafe(S, p.second))}); o["neq"] = std::move(nq);
    json::Object in; for (auto &p : argVals) in[p.first] = js(canonSafe(S, p.second)); o["args"] = std::move(in);
    json::Object sb; for (auto &b : S.sub) sb[syms[b.first].name] = js(canonSafe(S, symVal(b.first, syms[b.first].w))); o["sub"] = std::move(sb);
    if (!R) o["cut"] = true;
    paths.push_back(std::move(o));
  }
  Val canonSafe(St &S, const Val &v) { try { return canon(S, v); } catch (Fork &) { return v; } }
  std::map<std::string, Val> argVals;
  // execute one instruction; push successor states to out; return true when S simply continues
  bool step(St &S, Instruction *I, std::vector<St> &out) {
    auto set = [&](const Val &v) { S.env[I] = v; };
    if (isa<DbgInfoIntrinsic>(I)) return true;
    if (auto *A = dyn_cast<AllocaInst>(I)) { set(catVal({symVal(newSym("alloca" + std::to_string(freshN++), 63), 63), constVal(0, 1)})); S.neq.push_back({S.env[I], constVal(0, 64)}); return true; }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) { APInt o(64, 0); Val b = get(S, G->getPointerOperand()); if (G->accumulateConstantOffset(DL, o)) { set(addC(S, b, o.getZExtValue())); return true; }
      set(freshVal(64, "gep")); return true; }
    if (auto *C = dyn_cast<CastInst>(I)) { Val v = get(S, C->getOperand(0)); unsigned w = wid(C->getType()); switch (C->getOpcode()) { case Instruction::SExt: { Bit t = v.back(); v.resize(w, t); break; } case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: v.resize(w); break; default: v = freshVal(w, "cast"); } set(v); return true; }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      Val a = get(S, B->getOperand(0)), b = get(S, B->getOperand(1)); unsigned n = a.size(); Val r(n); uint64_t ca, cb; bool ia = isC(a, &ca), ib = isC(b, &cb);
      switch (B->getOpcode()) {
      case Instruction::And: for (unsigned i = 0; i < n; i++) r[i] = andB(a[i], b[i]); break;
      case Instruction::Or: for (unsigned i = 0; i < n; i++) r[i] = orB(a[i], b[i]); break;
      case Instruction::Xor: for (unsigned i = 0; i < n; i++) r[i] = xorB(a[i], b[i]); break;
      case Instruction::Shl: if (!ib) { r = freshVal(n, "shl"); break; } for (unsigned i = 0; i < n; i++) r[i] = i >= cb ? a[i - cb] : Bit(); break;
      case Instruction::LShr: if (!ib) { r = freshVal(n, "shr"); break; } for (unsigned i = 0; i < n; i++) r[i] = i + cb < n ? a[i + cb] : Bit(); break;
      case Instruction::AShr: if (!ib) { r = freshVal(n, "shr"); break; } for (unsigned i = 0; i < n; i++) r[i] = i + cb < n ? a[i + cb] : a[n - 1]; break;
      case Instruction::Add: r = addV(S, a, b); break;
      case Instruction::Sub: if (ib) r = addC(S, a, (0 - cb) & maskw(n)); else if (rel(a, b) == 1) r = constVal(0, n); else r = freshVal(n, "sub"); break;
      case Instruction::Mul: if (ia && ib) r = constVal(ca * cb & maskw(n), n); else if (ib && cb && !(cb & (cb - 1))) { unsigned k = __builtin_ctzll(cb); for (unsigned i = 0; i < n; i++) r[i] = i >= k ? a[i - k] : Bit(); } else r = freshVal(n, "mul"); break;
      default: r = freshVal(n, "op"); }
      set(r); return true; }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      Val a = get(S, C->getOperand(0)), b = get(S, C->getOperand(1)); unsigned n = a.size(); auto p = C->getPredicate(); bool inv = false; uint64_t c, d;
      if (isC(a, &d) && isC(b, &c)) { APInt x(n, d), y(n, c); set(constVal(ICmpInst::compare(x, y, p), 1)); return true; }
      if (isC(a) && !isC(b)) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
      bool ib = isC(b, &c); Val x = a, y = b; bool eq = false;
      auto pow2 = [](uint64_t v) { return v && !(v & (v - 1)); };
      auto hi = [&](unsigned k) { x = Val(a.begin() + k, a.end()); y = constVal(0, n - k); eq = true; };
      if (p == ICmpInst::ICMP_EQ) eq = true; else if (p == ICmpInst::ICMP_NE) { eq = true; inv = true; }
      else if (ib && p == ICmpInst::ICMP_UGT && pow2(c + 1)) { hi(__builtin_ctzll(c + 1)); inv = true; }
      else if (ib && p == ICmpInst::ICMP_UGE && pow2(c)) { hi(__builtin_ctzll(c)); inv = true; }
      else if (ib && p == ICmpInst::ICMP_ULT && pow2(c)) hi(__builtin_ctzll(c));
      else if (ib && p == ICmpInst::ICMP_ULE && pow2(c + 1)) hi(__builtin_ctzll(c + 1));
      else if (ib && ((p == ICmpInst::ICMP_SLT && c == 0) || (p == ICmpInst::ICMP_SGT && c == maskw(n)))) { x = {a[n - 1]}; y = constVal(0, 1); eq = true; inv = p == ICmpInst::ICMP_SLT; }
      if (!eq) { for (int k = 0; k < 2; k++) { St T = S; T.env[I] = constVal(k, 1); ++T.it; out.push_back(std::move(T)); } return false; }
      int r = rel(x, y); if (r >= 0) { set(constVal((r == 1) != inv, 1)); return true; }
      { St T = S; if (unify(T, x, y)) { T.env[I] = constVal(!inv, 1); ++T.it; out.push_back(std::move(T)); } }
      { St T = S; if (addNeq(T, x, y)) { T.env[I] = constVal(inv, 1); ++T.it; out.push_back(std::move(T)); } }
      return false; }
    if (auto *P = dyn_cast<PHINode>(I)) { // parallel phis
      std::vector<std::pair<Value *, Val>> ns; auto it = S.it; while (auto *Q = dyn_cast<PHINode>(&*it)) { Value *iv = Q->getIncomingValueForBlock(S.prev); if (!Q->getType()->isStructTy()) ns.push_back({Q, get(S, iv)}); ++it; }
      for (auto &x : ns) S.env[x.first] = x.second; S.it = it; --S.it; return true; }
    if (auto *Se = dyn_cast<SelectInst>(I)) { Val c = get(S, Se->getCondition()); uint64_t k; if (!isC(c, &k)) throw Fork{c[0].s}; set(get(S, k ? Se->getTrueValue() : Se->getFalseValue())); return true; }
    if (isa<FreezeInst>(I)) { set(get(S, I->getOperand(0))); return true; }
    if (auto *L = dyn_cast<LoadInst>(I)) { Val ad = get(S, L->getPointerOperand()); std::string a = str(ad); if (L->getType()->isStructTy() || L->getType()->isVectorTy() || L->getType()->isFloatingPointTy()) return true; Val v = readCell(S, a, wid(L->getType()), L->isAtomic()); set(v); if (cellOf(a) || L->isAtomic()) event(S, I, "load", a, L->getOrdering(), v, v); return true; }
    if (auto *T = dyn_cast<StoreInst>(I)) { if (T->getValueOperand()->getType()->isStructTy() || T->getValueOperand()->getType()->isVectorTy()) return true; Val ad = get(S, T->getPointerOperand()); std::string a = str(ad); Val v = get(S, T->getValueOperand()); bool loc = ad[0].k == 2 && StringRef(syms[ad[0].s].name).starts_with("alloca"); Val old; if (cellOf(a) && (cellOf(a)->stable)) old = readCell(S, a, v.size(), false); if (!loc && !lnames.count(a)) event(S, I, "store", a, T->getOrdering(), old, v); writeCell(S, a, v); return true; }
    if (auto *R = dyn_cast<AtomicRMWInst>(I)) {
      std::string a = str(get(S, R->getPointerOperand())); Val v = get(S, R->getValOperand()); Val old; auto saved = S.loads; old = readCell(S, a, v.size(), true); Val nw(old.size()); uint64_t c; std::string what;
      // a fresh snapshot may need case splits: bind it first so that a re-execution sees the same one
      std::vector<St> work; St base = S; base.env[I] = old; work.push_back(base); 
      while (!work.empty()) { St T = std::move(work.back()); work.pop_back(); Val o = canon(T, old); v = canon(T, v);
        try { switch (R->getOperation()) {
          case AtomicRMWInst::Xchg: nw = v; what = "xchg"; break;
          case AtomicRMWInst::Add: nw = addV(T, o, v); what = "add"; break;
          case AtomicRMWInst::Sub: if (isC(v, &c)) nw = addC(T, o, (0 - c) & maskw(v.size())); else nw = freshVal(v.size(), "rmw"); what = "sub"; break;
          case AtomicRMWInst::And: for (size_t i = 0; i < o.size(); i++) nw[i] = andB(o[i], v[i]); what = "and"; break;
          case AtomicRMWInst::Or: for (size_t i = 0; i < o.size(); i++) nw[i] = orB(o[i], v[i]); what = "or"; break;
          case AtomicRMWInst::Xor: for (size_t i = 0; i < o.size(); i++) nw[i] = xorB(o[i], v[i]); what = "xor"; break;
          default: nw = freshVal(v.size(), "rmw"); what = "?"; }
          event(T, I, "rmw", a, R->getOrdering(), o, nw, what); writeCell(T, a, nw); T.env[I] = o; ++T.it; out.push_back(std::move(T));
        } catch (Fork &f) { for (int k = 0; k < 2; k++) { St U = T; bindTo(U, f.s, true, k, -1, 0); if (consistent(U)) work.push_back(std::move(U)); } } }
      return false; }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) {
      std::string a = str(get(S, X->getPointerOperand())); Val ex = get(S, X->getCompareOperand()), nv = get(S, X->getNewValOperand()); Val old = readCell(S, a, ex.size(), true);
      { St T = S; if (unify(T, old, ex)) { event(T, I, "rmw", a, X->getSuccessOrdering(), old, nv, "cas"); writeCell(T, a, nv); T.agg[I] = {old, constVal(1, 1)}; ++T.it; out.push_back(std::move(T)); } }
      { St T = S; if (X->isWeak() || addNeq(T, old, ex)) { event(T, I, "casfail", a, X->getFailureOrdering(), old, old); T.agg[I] = {old, constVal(0, 1)}; ++T.it; out.push_back(std::move(T)); } }
      return false; }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) { auto it = S.agg.find(E->getAggregateOperand()); if (it != S.agg.end() && E->getNumIndices() == 1 && E->getIndices()[0] < it->second.size()) set(canon(S, it->second[E->getIndices()[0]])); else if (!E->getType()->isStructTy()) set(freshVal(wid(E->getType()), "ext")); return true; }
    if (isa<FenceInst>(I)) { event(S, I, "fence", "", cast<FenceInst>(I)->getOrdering(), {}, {}); return true; }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      auto done = [&](BasicBlock *nx) { (void)nx; };
      if (CB->isInlineAsm()) { auto *ia = cast<InlineAsm>(CB->getCalledOperand()); std::string as = ia->getAsmString(), cs = ia->getConstraintString(); bool mem = cs.find("~{memory}") != std::string::npos; event(S, I, mem ? "fence" : "asm", "", AtomicOrdering::SequentiallyConsistent, {}, {}, as); if (!I->getType()->isVoidTy() && !I->getType()->isStructTy()) set(freshVal(wid(I->getType()), "asm")); if (I->getType()->isStructTy()) S.agg.erase(I); return true; }
      Function *F = CB->getCalledFunction(); std::string nm = F ? normName(F->getName()) : "?indirect";
      if (F && F->isIntrinsic()) { if (!I->getType()->isVoidTy()) { if (F->getIntrinsicID() == Intrinsic::expect || F->getIntrinsicID() == Intrinsic::threadlocal_address || StringRef(F->getName()).starts_with("llvm.launder") || StringRef(F->getName()).starts_with("llvm.expect")) set(get(S, CB->getArgOperand(0))); else if (!I->getType()->isStructTy()) set(freshVal(wid(I->getType()), "intr")); } return true; }
      if (CB->doesNotReturn()) { npaths++; return false; }
      std::string args; for (unsigned i = 0; i < CB->arg_size(); i++) { auto *ty = CB->getArgOperand(i)->getType(); if (ty->isPointerTy() || ty->isIntegerTy()) args += (i ? ";" : "") + locName(str(get(S, CB->getArgOperand(i)))); }
      event(S, I, "call", args, AtomicOrdering::NotAtomic, {}, {}, nm);
      if (!I->getType()->isVoidTy() && !I->getType()->isStructTy()) set(freshVal(wid(I->getType()), "ret(" + nm + ")"));
      if (auto *IV = dyn_cast<InvokeInst>(I)) { S.prev = S.bb; S.bb = IV->getNormalDest(); S.it = S.bb->begin(); --S.it; go(S, out); return false; }
      return true; }
    if (auto *Br = dyn_cast<BranchInst>(I)) { BasicBlock *t; if (Br->isConditional()) { Val c = get(S, Br->getCondition()); uint64_t k; if (!isC(c, &k)) { if (c[0].k == 2 && syms[c[0].s].w == 1) throw Fork{c[0].s}; for (int q = 0; q < 2; q++) { St T = S; jump(T, Br->getSuccessor(q), out); } return false; } t = Br->getSuccessor(k ? 0 : 1); } else t = Br->getSuccessor(0); jump(S, t, out); return false; }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) { Val c = get(S, Sw->getCondition()); St D = S; bool live = true; for (auto &cs : Sw->cases()) { Val k = constVal(cs.getCaseValue()->getZExtValue(), c.size()); St T = S; if (unify(T, c, k)) jump(T, cs.getCaseSuccessor(), out); if (live) live = addNeq(D, c, k); } if (live) jump(D, Sw->getDefaultDest(), out); return false; }
    if (auto *R = dyn_cast<ReturnInst>(I)) { finish(S, R); return false; }
    if (isa<UnreachableInst>(I) || isa<ResumeInst>(I)) return false;
    if (!I->getType()->isVoidTy() && !I->getType()->isStructTy()) set(freshVal(wid(I->getType()), "x"));
    return true;
  }
  void go(St &S, std::vector<St> &out) { ++S.it; out.push_back(std::move(S)); }
  void jump(St &S, BasicBlock *t, std::vector<St> &out) { S.prev = S.bb; S.bb = t; S.it = t->begin(); if (++S.visits[t] > loopLimit) { cut++; finish(S, nullptr); return; } out.push_back(std::move(S)); }
  void run(Function &F, St S0) {
    std::vector<St> st; S0.bb = &F.getEntryBlock(); S0.it = S0.bb->begin(); st.push_back(std::move(S0));
    while (!st.empty()) {
      if (++steps > 4000000 || npaths > cap) { err = "too many paths"; return; }
      St S = std::move(st.back()); st.pop_back(); std::vector<St> out;
      while (true) { Instruction *I = &*S.it; bool cont; int svl = S.loads;
        try { cont = step(S, I, out); } catch (Fork &f) { S.loads = svl; for (int k = 0; k < 2; k++) { St T = S; bindTo(T, f.s, true, k, -1, 0); if (consistent(T)) out.push_back(std::move(T)); } break; }
        if (!cont) break; ++S.it; }
      for (auto &x : out) st.push_back(std::move(x));
    }
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(BCF, Err, Ctx); if (!M) { Err.print("words", errs()); return 3; }
  auto buf = MemoryBuffer::getFile(SpecF); if (!buf) { errs() << "no spec\n"; return 3; }
  auto spec = json::parse((*buf)->getBuffer()); if (!spec) { errs() << "bad spec\n"; return 3; }
  auto &O = *spec->getAsObject(); FieldTable FT; FT.build(*M);
  for (auto &l : *O.getObject("layouts")) { Layout L; for (auto &f : *l.second.getAsArray()) { auto &a = *f.getAsArray(); L.f.push_back({a[0].getAsString()->str(), (unsigned)*a[1].getAsInteger()}); } layouts[l.first.str()] = L; }
  std::set<std::string> keepOut; if (auto *a = O.getArray("opaque")) for (auto &x : *a) keepOut.insert(x.getAsString()->str());
  for (auto &F : *M) if (!F.isDeclaration()) { bool op = false; std::string nn = normName(F.getName()); for (auto &k : keepOut) if (globMatch(k, nn)) op = true; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); if (op) F.addFnAttr(Attribute::NoInline); else if (!F.getName().starts_with("vp_")) F.addFnAttr(Attribute::AlwaysInline); }
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM); }
  json::Array outs_;
  for (auto &ev : *O.getArray("entries")) {
    auto &e = *ev.getAsObject(); std::string fn = e.getString("fn")->str(); Function *F = M->getFunction(fn); json::Object ro; ro["fn"] = fn;
    if (!F || F->isDeclaration()) { ro["error"] = "missing"; outs_.push_back(std::move(ro)); continue; }
    freshN = 0; Run R(*M, FT); R.loopLimit = e.getInteger("loops").value_or(O.getInteger("loops").value_or(3)); St S; unsigned ai = 0; std::string bad;
    if (auto *as = e.getArray("args")) for (auto &av : *as) {
      auto &a = *av.getAsObject(); if (ai >= F->arg_size()) { bad = "fewer arguments than specified"; break; } Argument *A = F->getArg(ai++); std::string nm = a.getString("name")->str();
      unsigned w = R.wid(A->getType()); Val v;
      auto preset = [&](Val &x, const json::Object *p, const std::string &lay) { if (!p) return; unsigned pos = 0; for (auto &f : layouts[lay].f) { if (auto c = p->getInteger(f.first)) for (unsigned i = 0; i < f.second; i++) { x[pos + i] = Bit(); x[pos + i].k = *c >> i & 1; } pos += f.second; } };
      if (A->getType()->isPointerTy()) {
        v = catVal({symVal(newSym(nm, 63), 63), constVal(0, 1)}); S.neq.push_back({v, constVal(0, 64)});
        auto addr = [&](const json::Object &c) { uint64_t off = c.getInteger("off").value_or(0); if (auto f = c.getString("field")) { auto p = f->rsplit('.'); auto it = FT.t.find(p.first.str()); bool ok = false; if (it != FT.t.end()) for (auto &q : it->second) if (q.name == p.second) { off = q.off; ok = true; } if (!ok && !c.getInteger("off")) bad = "field not found: " + f->str(); } return str(addC(S, v, off)); };
        if (auto *cs = a.getArray("cells")) for (auto &cv : *cs) { auto &c = *cv.getAsObject(); Cell C; C.name = c.getString("cell")->str(); C.layout = c.getString("layout").value_or("").str(); C.stable = c.getBoolean("stable").value_or(false); C.plain = c.getBoolean("plain").value_or(false); std::string ad = addr(c); R.cells[ad] = C;
          if (C.stable || c.get("init")) { Val x; if (auto iv = c.getInteger("init")) x = constVal(*iv, c.getInteger("w").value_or(64)); else { x = C.layout.empty() ? freshVal(64, C.name + "0") : layoutVal(C.layout, C.name + "@0"); preset(x, c.getObject("pre"), C.layout); } R.init[ad] = x; } }
        if (auto *cs = a.getArray("mem")) for (auto &cv : *cs) { auto &c = *cv.getAsObject(); std::string ad = addr(c); R.lnames[ad] = c.getString("cell")->str(); Val x; if (auto iv = c.getInteger("init")) x = constVal(*iv, c.getInteger("w").value_or(8)); else { std::string l = c.getString("layout").value_or("").str(); x = l.empty() ? freshVal(c.getInteger("w").value_or(64), c.getString("cell")->str()) : layoutVal(l, c.getString("cell")->str()); if (!l.empty()) preset(x, c.getObject("pre"), l); } R.init[ad] = x; }
      } else { std::string l = a.getString("layout").value_or("").str(); v = l.empty() ? symVal(newSym(nm, w), w) : layoutVal(l, nm); if (v.size() != w) v.resize(w); if (!l.empty()) preset(v, a.getObject("pre"), l); if (auto iv = a.getInteger("init")) v = constVal(*iv, w); }
      S.env[A] = v; R.argVals[nm] = v;
    }
    if (!bad.empty()) { ro["error"] = bad; outs_.push_back(std::move(ro)); continue; }
    R.run(*F, std::move(S)); if (!R.err.empty()) ro["error"] = R.err; ro["cut"] = (int64_t)R.cut; ro["steps"] = (int64_t)R.steps; json::Array pa; for (auto &p : R.paths) pa.push_back(std::move(p)); ro["paths"] = std::move(pa); outs_.push_back(std::move(ro));
  }
  std::string s; raw_string_ostream os(s); os << formatv("{0}", json::Value(std::move(outs_)));
  if (OutF == "-") outs() << os.str() << "\n"; else { std::error_code ec; raw_fd_ostream f(OutF, ec); f << os.str() << "\n"; }
  return 0;
}
