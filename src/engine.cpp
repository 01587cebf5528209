#include "engine.h"
#include "llvm/Support/xxhash.h"
#include <functional>
#include <algorithm>
static const int WIDE_NUM = 64;
static bool userMust(uint32_t) { return false; }

// ---------------------------------------------------------------- numbering
static unsigned leafCount(Type *T) { if (auto *ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *e : ST->elements()) n += leafCount(e); return n ? n : 1; } return 1; }
void Engine::number() {
  num.clear(); vals.clear(); bnum.clear(); blocks.clear(); flagAllocas.clear(); descCache.clear(); headers.clear(); widen.clear();
  auto add = [&](const Value *v) { num[v] = vals.size(); unsigned n = leafCount(v->getType()); for (unsigned i = 0; i < n; i++) vals.push_back(v); };
  for (auto &A : F->args()) add(&A);
  ReversePostOrderTraversal<const Function *> RPO(F);
  for (auto *BB : RPO) { bnum[BB] = blocks.size(); blocks.push_back(BB); }
  for (auto *BB : blocks) for (auto &I : *BB) if (!I.getType()->isVoidTy()) add(&I);
  for (auto *BB : blocks) for (auto *S2 : successors(BB)) if (bnum[S2] <= bnum[BB]) headers.insert(S2);
  for (auto *BB : blocks) for (auto &I : *BB) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = C->getCalledFunction()) {
    auto it = S.prims.find(P.nameOf(f)); if (it == S.prims.end()) continue;
    for (auto &o : it->second) if (auto *ob = o.getAsObject()) if (auto fl = ob->getInteger("flag")) if ((size_t)*fl < C->arg_size()) flagAllocas.insert(C->getArgOperand(*fl)->stripPointerCasts());
  }
}
void Engine::computeLive() {
  retFlow.clear(); { std::vector<const Value *> w; for (auto *b : blocks) if (auto *R = dyn_cast<ReturnInst>(b->getTerminator())) if (R->getReturnValue()) w.push_back(R->getReturnValue());
    while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (!retFlow.insert(v).second) continue; if (auto *I = dyn_cast<Instruction>(v)) if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I) || isa<ExtractValueInst>(I)) for (auto &u : I->operands()) w.push_back(u.get()); } }
  size_t n = vals.size(), b = blocks.size();
  std::vector<std::vector<bool>> in(b, std::vector<bool>(n)), use(b, std::vector<bool>(n)), def(b, std::vector<bool>(n));
  for (size_t i = 0; i < b; i++) for (auto &I : *blocks[i]) {
    if (!isa<PHINode>(I)) for (auto &U : I.operands()) { auto it = num.find(U.get()); if (it != num.end() && !def[i][it->second]) use[i][it->second] = true; }
    auto it = num.find(&I); if (it != num.end()) def[i][it->second] = true;
  }
  bool ch = true;
  while (ch) { ch = false;
    for (size_t k = b; k-- > 0;) {
      std::vector<bool> out(n);
      for (auto *s : successors(blocks[k])) { size_t si = bnum[s];
        for (size_t v = 0; v < n; v++) if (in[si][v]) out[v] = true;
        for (auto &ph : s->phis()) { auto *iv = ph.getIncomingValueForBlock(blocks[k]); auto it = num.find(iv); if (it != num.end()) out[it->second] = true; auto d = num.find(&ph); (void)d; }
      }
      std::vector<bool> ni(n); for (size_t v = 0; v < n; v++) ni[v] = use[k][v] || (out[v] && !def[k][v]);
      // phi defs of this block are not live-in
      if (ni != in[k]) { in[k] = ni; ch = true; }
    }
  }
  liveIn.assign(b, {});
  for (size_t k = 0; k < b; k++) for (size_t v = 0; v < n; v++) if (in[k][v]) { unsigned w = leafCount(vals[v]->getType()); for (unsigned i = 0; i < w; i++) liveIn[k].push_back(v + i); }
}
// Which bytes of which locals can still be read: a local whose address only goes to accesses at known places and to
// primitives that do not keep it is tracked byte by byte (backwards over the control flow graph)
void Engine::computeCellLive() {
  cellOf.clear(); cellLive.clear();
  struct Ev { const AllocaInst *A; int64_t off, len; bool kill; };
  std::map<const Instruction *, std::vector<Ev>> evs; unsigned total = 0;
  const DataLayout &DL = F->getParent()->getDataLayout();
  static const std::set<std::string> quiet = {"rlock", "check", "upgrade", "lock", "trylock", "unlock", "unlock_obsolete", "rdlock", "rdunlock", "livetest", "pure", "ident", "touch", "captest", "nop", "read", "write", "set", "clear", "need", "gneed", "gset", "gclear", "need_locked", "retire", "free", "tagval", "epoch_enter", "epoch_exit", "alloc"};
  for (auto *B : blocks) for (auto &I : *B) { auto *A = dyn_cast<AllocaInst>(&I); if (!A || A->isArrayAllocation() || flagAllocas.count(A)) continue;
    uint64_t size = DL.getTypeAllocSize(A->getAllocatedType()); if (!size || size > 4096) continue;
    std::vector<std::pair<const Instruction *, Ev>> ev; bool esc = false; std::set<std::pair<const Value *, int64_t>> seen; std::vector<std::pair<const Value *, int64_t>> w{{A, 0}};
    auto add = [&](const Instruction *U, int64_t off, int64_t len, bool kill) { if (off < 0 || len < 0) { if (kill) return; off = 0; len = size; } if (off >= (int64_t)size) return; len = std::min<int64_t>(len, size - off); ev.push_back({U, Ev{A, off, len, kill}}); };
    while (!w.empty() && !esc) { auto [v, off] = w.back(); w.pop_back(); if (!seen.insert({v, off}).second) continue; if (seen.size() > 4000) { esc = true; break; }
      for (auto &use : v->uses()) { auto *U = dyn_cast<Instruction>(use.getUser()); if (!U) { esc = true; break; } if (!bnum.count(U->getParent())) continue;
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) { APInt o(64, 0); if (off >= 0 && G->accumulateConstantOffset(DL, o) && off + o.getSExtValue() >= 0) w.push_back({U, off + o.getSExtValue()}); else w.push_back({U, -1}); }
        else if (isa<CastInst>(U) && U->getType()->isPointerTy()) w.push_back({U, off});
        else if (isa<FreezeInst>(U)) w.push_back({U, off});
        else if (isa<PHINode>(U) || isa<SelectInst>(U)) w.push_back({U, -1});
        else if (auto *L = dyn_cast<LoadInst>(U)) add(U, off, off < 0 ? -1 : (int64_t)DL.getTypeStoreSize(L->getType()), false);
        else if (auto *S2 = dyn_cast<StoreInst>(U)) { if (use.getOperandNo() == 0) { esc = true; break; } add(U, off, off < 0 ? -1 : (int64_t)DL.getTypeStoreSize(S2->getValueOperand()->getType()), true); }
        else if (isa<ICmpInst>(U)) continue;
        else if (auto *MI = dyn_cast<MemIntrinsic>(U)) { auto *c = dyn_cast<ConstantInt>(MI->getLength()); int64_t len = c ? (int64_t)c->getZExtValue() : -1; if (use.getOperandNo() == 0) add(U, off, off < 0 || !c ? -1 : len, true); else if (use.getOperandNo() == 1) add(U, off, off < 0 || !c ? -1 : len, false); else { esc = true; break; } }
        else if (auto *CB = dyn_cast<CallBase>(U)) {
          if (auto *II = dyn_cast<IntrinsicInst>(U)) { if (II->isLifetimeStartOrEnd()) { add(U, 0, size, true); continue; } if (isa<DbgInfoIntrinsic>(II) || II->getIntrinsicID() == Intrinsic::assume) continue; esc = true; break; }
          auto *f = CB->getCalledFunction(); if (!f) { esc = true; break; } if (f->getName().starts_with("__v")) { add(U, -1, -1, false); continue; }
          auto it = S.prims.find(P.nameOf(f)); if (it == S.prims.end()) { esc = true; break; }
          bool nop = true, viav = true; for (auto &o : it->second) { auto *ob = o.getAsObject(); std::string op = ob ? ob->getString("op").value_or("").str() : ""; if (!quiet.count(op)) esc = true; if (op != "nop") nop = false; if (ob && !ob->getBoolean("via_ver").value_or(false) && !ob->getBoolean("not_local").value_or(false)) viav = false; }
          if (esc) break; if (nop) continue; if (viav) add(U, off, off < 0 ? -1 : 8, false); else add(U, -1, -1, false); }
        else { esc = true; break; } }
    }
    if (esc) continue;
    cellOf[A] = {total, (unsigned)size}; total += size; for (auto &e : ev) evs[e.first].push_back(e.second);
  }
  if (!total) return;
  size_t b = blocks.size(); cellLive.assign(b, BitVector(total)); std::vector<BitVector> use(b, BitVector(total)), kill(b, BitVector(total));
  for (size_t k = 0; k < b; k++) for (auto it = blocks[k]->rbegin(); it != blocks[k]->rend(); ++it) { auto e = evs.find(&*it); if (e == evs.end()) continue;
    for (int ph : {1, 0}) for (auto &v : e->second) if (v.kill == (ph == 1)) { unsigned lo = cellOf[v.A].first + v.off; if (v.kill) { use[k].reset(lo, lo + v.len); kill[k].set(lo, lo + v.len); } else { use[k].set(lo, lo + v.len); kill[k].reset(lo, lo + v.len); } } }
  bool ch = true; while (ch) { ch = false; for (size_t k = b; k-- > 0;) { BitVector out(total); for (auto *s2 : successors(blocks[k])) out |= cellLive[bnum[s2]]; out.reset(kill[k]); out |= use[k]; if (out != cellLive[k]) { cellLive[k] = out; ch = true; } } }
}

// ---------------------------------------------------------------- locations and reports
std::string Engine::locOf(const Instruction *I) {
  if (!I || !I->getDebugLoc()) return "?";
  auto *L = I->getDebugLoc().get();
  return (L->getFilename() + ":" + Twine(L->getLine())).str();
}
static std::string spName(const DISubprogram *sp) { return sp->getLinkageName().empty() ? sp->getName().str() : normName(sp->getLinkageName()); }
std::string Engine::chainFn(const Instruction *I) {
  if (!I || !I->getDebugLoc()) return entryName;
  auto *sp = I->getDebugLoc()->getScope()->getSubprogram(); return sp ? spName(sp) : entryName;
}
bool Engine::chainHas(const Instruction *I, const std::vector<std::string> &pats) {
  if (pats.empty() || !I || !I->getDebugLoc()) return false;
  for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) if (auto *sp = L->getScope()->getSubprogram()) { std::string n = spName(sp); for (auto &p : pats) if (globMatch(p, n)) return true; }
  return false;
}
void Engine::oblige(StringRef rule, const Instruction *I) { stats[("oblig." + rule).str()]++; sites[rule.str()].insert(entryName + "@" + locOf(I)); }
std::string Engine::chainAll(const Instruction *I) {
  std::string r; const DILocation *L = I ? I->getDebugLoc().get() : nullptr;
  for (; L; L = L->getInlinedAt()) { if (!r.empty()) r += " < "; if (auto *SP = L->getScope()->getSubprogram()) r += SP->getLinkageName().empty() ? SP->getName().str() : normName(SP->getLinkageName()); }
  return r;
}
bool Engine::report(X &x, const Instruction *I, StringRef rule, const std::string &msg, const std::string &detail) {
  if (getenv("DBGREP")) { errs() << "REPORT " << rule << "\n"; dump(x.st); }
  if (!enabled.empty() && !enabled.count(rule.str())) return false;
  Finding f; f.rule = rule.str(); f.entry = entryName; f.func = chainFn(I); f.msg = msg;
  if (I && I->getDebugLoc()) { f.file = I->getDebugLoc()->getFilename().str(); f.line = I->getDebugLoc().getLine(); }
  f.key = f.rule + "|" + f.entry + "|" + f.func + "|" + detail;
  f.chain = chainAll(I);
  std::string dk = f.key + "|" + std::to_string(f.line) + "|" + f.chain;
  x.dead = true;
  if (!seenFind.insert(dk).second) return true;
  std::vector<std::string> p; std::string last;
  for (int n = curNode; n >= 0 && p.size() < 14; n = trail[n].second) {
    const Instruction *t = blocks[trail[n].first]->getTerminator(); std::string l = locOf(t);
    // outermost frame line too
    if (l != last && l != "?") { p.push_back(l); last = l; }
  }
  std::reverse(p.begin(), p.end()); f.path = p;
  if (I && I->getDebugLoc()) for (const DILocation *L = I->getDebugLoc()->getInlinedAt(); L; L = L->getInlinedAt()) f.path.push_back(("called from " + L->getFilename() + ":" + Twine(L->getLine())).str());
  finds.push_back(f);
  return true;
}
std::string Engine::entName(X &x, int e) {
  if (e < 0) return "?";
  auto &n = x.st.ents[e]; std::string s;
  switch (n.kind) { case AllocaK: s = "local"; break; case HeapK: s = "node allocated at"; break; case GlobalK: s = "global"; break; case VerK: s = "version read at"; break; default: s = n.fl & F_PARAM ? "parameter" : "node obtained at"; }
  if (n.fld >= 0 && !strTab[n.fld].empty()) s += " [" + strTab[n.fld] + "]";
  if (n.site) s += " " + locOf(n.site);
  return s;
}

// ---------------------------------------------------------------- values
int Engine::fresh(X &x, EK k, const Instruction *site) { Entity e; e.kind = k; e.site = site; if (k == AllocaK || k == HeapK || k == GlobalK) e.nz = true; x.st.ents.push_back(e); return x.st.ents.size() - 1; }
static int64_t satAdd(int64_t a, int64_t b) { int64_t r; if (a == NEG || a == POS) return a; if (__builtin_add_overflow(a, b, &r)) return b > 0 ? POS : NEG; return r; }
void Engine::range(X &x, Val a, int64_t &lo, int64_t &hi) {
  if (a.k == Val::Int) { lo = hi = a.v; return; }
  lo = NEG; hi = POS;
  if (a.k == Val::Ent) { auto &e = x.st.ents[a.id]; lo = satAdd(e.lo, a.v); hi = satAdd(e.hi, a.v); }
}
Val Engine::get(X &x, const Value *v) {
  if (auto *C = dyn_cast<Constant>(v)) {
    if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() <= 64) return Val::I(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()); return freshV(x, nullptr); }
    if (isa<ConstantPointerNull>(C)) return Val::I(0);
    if (isa<UndefValue>(C)) return Val();
    const Value *base = C->stripPointerCasts(); int64_t off = 0; bool ok = true;
    if (auto *g = dyn_cast<GEPOperator>(base)) { APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) { off = o.getSExtValue(); base = g->getPointerOperand()->stripPointerCasts(); } else ok = false; }
    if (ok && isa<GlobalValue>(base)) {
      for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].kind == GlobalK && x.st.ents[i].anchor == base) return Val::E(i, off);
      int id = fresh(x, GlobalK); x.st.ents[id].anchor = base; return Val::E(id, off);
    }
    if (C->isNullValue()) return Val::I(0);
    if (auto *CE = dyn_cast<ConstantExpr>(C)) if (CE->getOpcode() == Instruction::IntToPtr) return get(x, CE->getOperand(0));
    return freshV(x, nullptr);
  }
  auto it = num.find(v); if (it == num.end()) return freshV(x, nullptr);
  auto j = x.sc.find(it->second); if (j != x.sc.end()) return j->second;
  if (isa<AllocaInst>(v)) { int id = fresh(x, AllocaK, cast<Instruction>(v)); x.st.ents[id].anchor = v; x.sc[it->second] = Val::E(id); return Val::E(id); } // nothing is known about its content
  return freshV(x, nullptr);
}
Val Engine::getAgg(X &x, const Value *v, unsigned i) {
  if (isa<UndefValue>(v)) return Val(); if (isa<ConstantAggregateZero>(v)) return Val::I(0);
  if (auto *cs = dyn_cast<ConstantStruct>(v)) if (i < cs->getNumOperands()) return get(x, cs->getOperand(i));
  auto it = num.find(v); if (it == num.end()) return freshV(x, nullptr);
  auto j = x.sc.find(it->second + i); if (j != x.sc.end()) return j->second;
  return freshV(x, nullptr);
}
void Engine::set(X &x, const Value *v, Val val) { auto it = num.find(v); if (it == num.end()) return; unsigned n = leafCount(v->getType()); x.sc[it->second] = val; for (unsigned i = 1; i < n; i++) x.sc[it->second + i] = val.k == Val::Undef ? Val() : freshV(x, nullptr); }
static void substVal(Val &v, int from, const Val &to) {
  if (!v.isEnt() || v.id != from) return;
  if (to.k == Val::Int) { if (v.k == Val::Ent) v = Val::I(to.v + v.v); else v = Val::I(to.v); }
  else { v.id = to.id; if (v.k == Val::Ent) { v.v += to.v; } if (to.k == Val::EntU) v.k = Val::EntU; }
}
void Engine::substEnt(X &x, int from, Val to) {
  for (auto &kv : x.sc) substVal(kv.second, from, to);
  for (auto &p : x.st.env) substVal(p.second, from, to);
  for (auto &c : x.st.mem) substVal(c.v, from, to);
  for (auto &r : x.st.rels) { substVal(r.a, from, to); substVal(r.b, from, to); }
  for (auto &e : x.st.ents) substVal(e.lctx, from, to);
  for (auto &m : x.st.memos) { substVal(m.a, from, to); substVal(m.b, from, to); substVal(m.r, from, to); }
}
void Engine::unify(X &x, int a, int b) { // b replaced by a
  if (a == b) return;
  auto rank = [&](int i) { auto &e = x.st.ents[i]; return (e.kind != Plain) * 4 + (e.lock ? 2 : 0) + ((e.fl & F_PARAM) ? 1 : 0); };
  if (rank(b) > rank(a)) std::swap(a, b);
  Entity &A = x.st.ents[a], &B = x.st.ents[b];
  A.nz |= B.nz; if (A.leaf < 0) A.leaf = B.leaf; A.lo = std::max(A.lo, B.lo); A.hi = std::min(A.hi, B.hi);
  if (B.lock) { A.lock = 1; A.lockSite = B.lockSite; } A.shr += B.shr;
  bool rp = (A.fl & F_ROOTPEND) || (B.fl & F_ROOTPEND);
  bool samefld = A.fld == B.fld && A.fld >= 0;
  A.fl |= B.fl; if (rp && samefld) A.fl &= ~F_ROOTPEND;
  for (auto &e : x.st.ents) { if (e.of == b) e.of = a; if (e.src == b) e.src = a; if (e.cont == b) e.cont = a; if (e.part == b) e.part = a; if (e.pubu == b) e.pubu = a; }
  // tokens of both: keep distinct sequence numbers
  for (auto &c : x.st.mem) if (c.obj == b) c.obj = a;
  std::stable_sort(x.st.mem.begin(), x.st.mem.end(), [](const Cell &p, const Cell &q) { return p.obj != q.obj ? p.obj < q.obj : p.off < q.off; });
  substEnt(x, b, Val::E(a));
  x.st.ents[b] = Entity();
}
bool Engine::refineEq(X &x, Val a, int64_t c, bool eq) {
  if (a.k == Val::Int) return (a.v == c) == eq;
  if (a.k == Val::Undef) return true;
  if (a.k == Val::EntU) { auto &e = x.st.ents[a.id]; if (c == 0 && eq && e.nz && e.kind != Plain) return false; return true; }
  Entity &e = x.st.ents[a.id]; int64_t t = c - a.v;
  if (eq) {
    if (t < e.lo || t > e.hi) return false; if (t == 0 && e.nz) return false;
    if (c == 0 && a.v != 0 && e.nz && e.kind != Plain) return false;
    if (e.kind == VerK) { e.lo = e.hi = t; return true; }
    if (e.kind != Plain || e.lock || e.shr) return false;
    substEnt(x, a.id, Val::I(t)); return true;
  }
  if (e.lo == t && e.hi == t) return false;
  if (t == 0) e.nz = true; if (e.lo == t) e.lo++; if (e.hi == t) e.hi--;
  if (e.lo == e.hi && e.kind == Plain && !e.lock && !e.shr) { int64_t k = e.lo; if (k == 0 && e.nz) return false; substEnt(x, a.id, Val::I(k)); }
  return true;
}
static bool cmpI(CmpInst::Predicate p, int64_t a, int64_t b, unsigned bits) {
  if (bits > 64 || bits == 0) bits = 64;
  APInt A(bits, (uint64_t)a), B(bits, (uint64_t)b); return ICmpInst::compare(A, B, p);
}
int Engine::tri(X &x, CmpInst::Predicate p, Val a, Val b, unsigned bits, bool ptr) {
  if (a.k == Val::Undef || b.k == Val::Undef) return -1;
  if (a.k == Val::Int && b.k == Val::Int) return cmpI(p, a.v, b.v, bits);
  if (a.isEnt() && b.isEnt() && a.id == b.id && a.k == Val::Ent && b.k == Val::Ent) return ICmpInst::compare(APInt(64, (uint64_t)a.v), APInt(64, (uint64_t)b.v), CmpInst::isUnsigned(p) ? CmpInst::getSignedPredicate(p) : p);
  for (auto &r : x.st.rels) {
    if (r.a == a && r.b == b) { if (r.pred == p) return r.r; if (r.pred == CmpInst::getInversePredicate(p)) return !r.r; }
    if (r.a == b && r.b == a) { auto sp = CmpInst::getSwappedPredicate(p); if (r.pred == sp) return r.r; if (r.pred == CmpInst::getInversePredicate(sp)) return !r.r; }
    if (r.r && ((r.a == a && r.b == b) || (r.a == b && r.b == a))) { // implied
      auto q = (r.a == a && r.b == b) ? (CmpInst::Predicate)r.pred : CmpInst::getSwappedPredicate((CmpInst::Predicate)r.pred);
      if (q == CmpInst::ICMP_EQ) { if (p == CmpInst::ICMP_NE) return 0; return CmpInst::isTrueWhenEqual(p); }
      if ((q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_SLT || q == CmpInst::ICMP_SGT)) { if (p == CmpInst::ICMP_EQ) return 0; if (p == CmpInst::ICMP_NE) return 1; }
      if ((q == CmpInst::ICMP_ULT && (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE)) || (q == CmpInst::ICMP_SLT && (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE)) ||
          (q == CmpInst::ICMP_UGT && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE)) || (q == CmpInst::ICMP_SGT && (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE))) return 0;
      if ((q == CmpInst::ICMP_ULT && p == CmpInst::ICMP_ULE) || (q == CmpInst::ICMP_SLT && p == CmpInst::ICMP_SLE) || (q == CmpInst::ICMP_UGT && p == CmpInst::ICMP_UGE) || (q == CmpInst::ICMP_SGT && p == CmpInst::ICMP_SGE)) return 1;
    }
  }
  if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
    int r = -1;
    if (a.isEnt() && b.isEnt()) {
      auto &A = x.st.ents[a.id], &B = x.st.ents[b.id];
      auto priv = [&](Entity &e) { return e.kind == AllocaK || (e.kind == HeapK && !(e.fl & F_PUB)); };
      if (ptr && a.id != b.id) { if (A.kind != Plain && B.kind != Plain) r = 0; else if (priv(A) || priv(B)) r = 0; else if (A.lock && B.lock) r = 0; }
    }
    int64_t l1, h1, l2, h2; range(x, a, l1, h1); range(x, b, l2, h2);
    if (h1 < l2 || h2 < l1) r = 0;
    if (b.k == Val::Int && b.v == 0 && a.k == Val::Ent && a.v == 0 && x.st.ents[a.id].nz) r = 0;
    if (a.k == Val::Int && a.v == 0 && b.k == Val::Ent && b.v == 0 && x.st.ents[b.id].nz) r = 0;
    if (ptr && ((b.k == Val::Int && b.v == 0 && a.isEnt() && x.st.ents[a.id].nz) || (a.k == Val::Int && a.v == 0 && b.isEnt() && x.st.ents[b.id].nz))) r = 0;
    if (r < 0) return -1; return p == CmpInst::ICMP_EQ ? r : !r;
  }
  int64_t l1, h1, l2, h2; range(x, a, l1, h1); range(x, b, l2, h2);
  if (CmpInst::isUnsigned(p)) { if (p == CmpInst::ICMP_UGT && b.k == Val::Int && b.v == 0 && a.k == Val::Ent && a.v == 0 && x.st.ents[a.id].nz) return 1;
    if (p == CmpInst::ICMP_UGE && b.k == Val::Int && b.v == 0) return 1; if (p == CmpInst::ICMP_ULT && b.k == Val::Int && b.v == 0) return 0;
    if (l1 < 0 || l2 < 0) return -1; p = CmpInst::getSignedPredicate(p); }
  switch (p) {
  case CmpInst::ICMP_SLT: if (h1 < l2) return 1; if (l1 >= h2 && h2 != POS) return 0; return -1;
  case CmpInst::ICMP_SLE: if (h1 <= l2 && h1 != POS) return 1; if (l1 > h2) return 0; return -1;
  case CmpInst::ICMP_SGT: if (l1 > h2) return 1; if (h1 <= l2 && h1 != POS) return 0; return -1;
  case CmpInst::ICMP_SGE: if (l1 >= h2 && l1 != NEG && h2 != POS) return 1; if (h1 < l2) return 0; return -1;
  default: return -1;
  }
}
static uint32_t bitOf(StringRef s);
// does the address argument of a lock primitive denote one of these fields?
bool Engine::argField(const json::Object *o, const CallBase &C, const std::vector<std::string> &fs) { if (!C.arg_size()) return false; for (auto &t : desc(C.getArgOperand(o ? o->getInteger("obj").value_or(0) : 0)).types) if (t.second >= 0 && isFieldIn(FT.fieldAt(t.first, t.second), fs)) return true; return false; }
bool Engine::srcHeld(X &x, int id) { int s = x.st.ents[id].src; return s >= 0 && s != id && (x.st.ents[s].lock || x.st.ents[s].shr); }
// a comparison established A <= B where A is a version of object X and B the version X was found under
void Engine::cmpHook(X &x, CmpInst::Predicate p, Val a, Val b) {
  auto *L = S.root.getArray("cmp_set"); if (!L) return;
  if (a.k == Val::Ent && b.k == Val::Int) { for (auto &r : *L) { auto *o = r.getAsObject(); auto lt = o->getInteger("lt"); auto &A = x.st.ents[a.id]; if (!lt || A.tag == 0 || A.tag != o->getInteger("tag").value_or(0) || A.of < 0) continue; int64_t c = b.v - a.v; bool ok = ((p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT) && c <= *lt) || ((p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) && c < *lt) || (p == CmpInst::ICMP_EQ && c < *lt) || (p == CmpInst::ICMP_NE && c == *lt); if (o->getBoolean("ne").value_or(false)) ok = (p == CmpInst::ICMP_NE && c == *lt) || (p == CmpInst::ICMP_EQ && c != *lt); if (ok) x.st.ents[A.of].fl |= bitOf(*o->getString("bit")); } return; }
  if (a.k != Val::Ent || b.k != Val::Ent) return;
  if (getenv("DBGCMP")) errs() << "cmp " << p << " " << entName(x, a.id) << "+" << a.v << " tag " << x.st.ents[a.id].tag << " of " << x.st.ents[a.id].of << " lock " << (int)x.st.ents[a.id].lock << " / " << entName(x, b.id) << "+" << b.v << " tag " << x.st.ents[b.id].tag << " lock " << (int)x.st.ents[b.id].lock << "\n";
  for (int k = 0; k < 2; k++) {
    if (p == CmpInst::ICMP_EQ) for (auto &r : *L) { auto *o = r.getAsObject(); auto &A = x.st.ents[a.id]; if (!o->getBoolean("eq_any").value_or(false) || A.tag == 0 || A.tag != o->getInteger("tag").value_or(0) || A.of < 0) continue; if (o->getBoolean("other_locked").value_or(false) && !x.st.ents[b.id].lock) continue; x.st.ents[A.of].fl |= bitOf(*o->getString("bit")); }
    if (p == CmpInst::ICMP_EQ) for (auto &r : *L) { auto *o = r.getAsObject(); auto &A = x.st.ents[a.id], &B = x.st.ents[b.id]; if (o->getBoolean("self").value_or(false) && A.lock && A.fld >= 0 && B.fld == A.fld && globMatch(o->getString("field").value_or("*"), strTab[A.fld]) && B.src >= 0 && x.st.ents[B.src].lock) A.fl |= bitOf(*o->getString("bit")); }
    if (p == CmpInst::ICMP_EQ) for (auto &r : *L) { auto *o = r.getAsObject(); auto t2 = o->getInteger("tag2"); auto &A = x.st.ents[a.id], &B = x.st.ents[b.id]; if (t2 && A.tag == o->getInteger("tag").value_or(0) && B.tag == *t2 && A.of >= 0 && A.of == B.of) x.st.ents[A.of].fl |= bitOf(*o->getString("bit")); }
    if (p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_EQ) for (auto &r : *L) { auto *o = r.getAsObject(); auto &A = x.st.ents[a.id]; if (A.tag == 0 || A.tag != o->getInteger("tag").value_or(0) || A.of < 0 || o->get("tag2") || o->get("eq_any")) continue; if (x.st.ents[A.of].of == b.id && b.v <= a.v) x.st.ents[A.of].fl |= bitOf(*o->getString("bit")); }
    std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
}
bool Engine::assume(X &x, CmpInst::Predicate p, Val a, Val b, bool r, unsigned bits, bool ptr) {
  if (!r) { p = CmpInst::getInversePredicate(p); r = true; }
  if (a.k == Val::Undef || b.k == Val::Undef) return true;
  if (a.k == Val::Int && b.k != Val::Int) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
  if (b.k == Val::Int) {
    if (a.k == Val::Ent) cmpHook(x, p, a, b);
    if (p == CmpInst::ICMP_EQ) return refineEq(x, a, b.v, true);
    if (p == CmpInst::ICMP_NE) return refineEq(x, a, b.v, false);
    if (a.k != Val::Ent) return true;
    Entity &e = x.st.ents[a.id]; int64_t c = b.v; int64_t lo = satAdd(e.lo, a.v);
    auto setHi = [&](int64_t h) { h -= a.v; if (h < e.hi) e.hi = h; }; auto setLo = [&](int64_t l) { l -= a.v; if (l > e.lo) e.lo = l; };
    switch (p) {
    case CmpInst::ICMP_ULT: if (c <= 0) break; setHi(c - 1); setLo(0); break;
    case CmpInst::ICMP_ULE: if (c < 0) break; setHi(c); setLo(0); break;
    case CmpInst::ICMP_UGT: if (a.v == 0 && c == 0) e.nz = true; if (lo >= 0 && c >= 0) setLo(c + 1); break;
    case CmpInst::ICMP_UGE: if (lo >= 0 && c >= 0) setLo(c); break;
    case CmpInst::ICMP_SLT: if (c == NEG) return false; setHi(c - 1); break;
    case CmpInst::ICMP_SLE: setHi(c); break;
    case CmpInst::ICMP_SGT: if (c == POS) return false; setLo(c + 1); break;
    case CmpInst::ICMP_SGE: setLo(c); break;
    default: break;
    }
    if (e.lo > e.hi) return false;
    if (e.lo == e.hi && e.kind == Plain && !e.lock && !e.shr) { int64_t k = e.lo; if (k == 0 && e.nz) return false; substEnt(x, a.id, Val::I(k)); }
    return true;
  }
  if (a.k == Val::Ent && b.k == Val::Ent) {
    if (a.id == b.id) return true;
    if (p == CmpInst::ICMP_EQ && ptr && a.v == b.v) { cmpHook(x, p, a, b); unify(x, a.id, b.id); return true; }
    x.st.rels.push_back({(int)p, a, b, true}); cmpHook(x, p, a, b);
    if (bits >= 32 && !ptr) { auto &A = x.st.ents[a.id], &B = x.st.ents[b.id]; if (A.kind == Plain && B.kind == Plain) {
      if ((p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) && satAdd(A.lo, a.v) >= 0 && A.lo != NEG && satAdd(B.lo, b.v) < 0 && b.v == 0) B.lo = 0;
      if ((p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE) && satAdd(B.lo, b.v) >= 0 && B.lo != NEG && satAdd(A.lo, a.v) < 0 && a.v == 0) A.lo = 0; } }
  }
  return true;
}

// ---------------------------------------------------------------- memory
Cell *Engine::cell(State &st, int obj, int64_t off, int sz) { for (auto &c : st.mem) if (c.obj == obj && c.off == off && c.sz == sz) return &c; return nullptr; }
void Engine::killOverlap(State &st, int obj, int64_t off, int sz) { st.mem.erase(std::remove_if(st.mem.begin(), st.mem.end(), [&](Cell &c) { return c.obj == obj && c.off < off + sz && off < c.off + c.sz; }), st.mem.end()); }
void Engine::putCell(State &st, int obj, int64_t off, int sz, Val v) {
  killOverlap(st, obj, off, sz); Cell c{obj, off, sz, v};
  auto it = std::lower_bound(st.mem.begin(), st.mem.end(), c, [](const Cell &p, const Cell &q) { return p.obj != q.obj ? p.obj < q.obj : p.off < q.off; });
  st.mem.insert(it, c);
}
void Engine::dropCells(State &st, int obj) { st.mem.erase(std::remove_if(st.mem.begin(), st.mem.end(), [&](Cell &c) { return c.obj == obj; }), st.mem.end()); }
bool Engine::isPrivate(const State &st, int e) { auto &n = st.ents[e]; return n.kind == HeapK && (!(n.fl & F_PUB) || (n.pubu >= 0 && st.ents[n.pubu].lock)); }
int Engine::owner(X &x, int id) { for (int k = 0; k < 4 && x.st.ents[id].part >= 0; k++) id = x.st.ents[id].part; return id; }
// every lock release ends the privacy of what was linked only into the released node
void Engine::released(X &x, int id) { for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].pubu == id) { x.st.ents[i].pubu = -1; dropCells(x.st, i); } }
void Engine::publish(X &x, int e, const Instruction *I, int into) {
  auto &n = x.st.ents[e]; if (n.kind != HeapK) return;
  bool under = into >= 0 && S.flag("publish_on_unlock") && x.st.ents[into].lock;
  if (n.fl & F_PUB) { if (n.pubu >= 0 && !(under && n.pubu == into)) { if (!under) { n.pubu = -1; dropCells(x.st, e); } } return; }
  n.fl |= F_PUB; n.fl &= ~F_OWN; if (under) n.pubu = into; else dropCells(x.st, e);
  for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].cont == e) publish(x, i, I, into);
}
// blocking acquisition of id while other locks are held: must follow the lock order
bool Engine::waitOrder(X &x, int id, const CallBase &C) {
  if (S.waitDown.empty() && S.waitForbid.empty()) return true;
  auto &e = x.st.ents[id]; if (isPrivate(x.st, id) || e.kind == AllocaK) return true;
  bool held = false, srcHeld = false;
  for (size_t i = 0; i < x.st.ents.size(); i++) { auto &q = x.st.ents[i]; if ((int)i == id || !(q.lock || q.shr) || isPrivate(x.st, i)) continue; held = true; if (e.src == (int)i) srcHeld = true; }
  oblige("wait-order", &C); if (!held) return true;
  std::string f = e.fld >= 0 ? strTab[e.fld] : ""; if (argField(nullptr, C, S.waitOk)) return true;
  if (srcHeld && isFieldIn(f, S.waitForbid)) { if (report(x, &C, "wait-order", "waits for the lock of a node (" + entName(x, id) + ") while holding the lock of the node it was reached from, against the lock order")) return false; }
  if (!S.waitDown.empty() && !(srcHeld && isFieldIn(f, S.waitDown))) { if (report(x, &C, "wait-order", "waits for a node (" + entName(x, id) + ") that does not follow a held node in the lock order, while holding a lock")) return false; }
  return true;
}
int Engine::latestTok(const State &st, int obj, bool failedToo) { int b = -1; for (size_t i = 0; i < st.ents.size(); i++) if (st.ents[i].kind == VerK && st.ents[i].of == obj && (failedToo || !(st.ents[i].fl & F_VFAILED)) && (b < 0 || st.ents[i].seq > st.ents[b].seq)) b = i; return b; }
void Engine::clearTok(X &x, int ver) {
  int of = x.st.ents[ver].of, sq = x.st.ents[ver].seq; std::set<int> cl;
  for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i]; if (e.kind == VerK && e.of == of && e.seq >= sq) { e.dirty = 0; cl.insert(i); } }
  for (auto &e : x.st.ents) e.taint.erase(std::remove_if(e.taint.begin(), e.taint.end(), [&](int t) { return cl.count(t); }), e.taint.end());
}
bool Engine::accessField(X &x, const Value *ptrV, Val p, std::string &fld) {
  fld.clear(); bool node = false;
  if (!forceField.empty()) { fld = forceField; if (p.isEnt() && x.st.ents[p.id].kind != AllocaK) { x.st.ents[p.id].fl |= F_NODE; return true; } return false; }
  const AccessDesc &d = desc(ptrV);
  // prefer the outermost node type that resolves
  for (auto it = d.types.rbegin(); it != d.types.rend(); ++it) if (S.isNodeType(it->first)) { node = true; fld = it->second >= 0 ? FT.fieldAt(it->first, it->second) : it->first + ".?"; break; }
  if (!node && !d.types.empty()) { auto &o = d.types.back(); fld = o.second >= 0 ? FT.fieldAt(o.first, o.second) : o.first + ".?"; }
  if (p.isEnt() && x.st.ents[p.id].kind == AllocaK) return false;
  if (p.isEnt() && node) { auto &e = x.st.ents[p.id]; e.fl |= F_NODE; }
  if (!node && p.isEnt() && (x.st.ents[p.id].fl & F_NODE)) { node = true; if (fld.empty()) fld = S.nodes.size() == 1 && p.k == Val::Ent && S.nodes[0].find('*') == std::string::npos ? FT.fieldAt(S.nodes[0], p.v) : "?"; }
  return node;
}
void Engine::onRead(X &x, const Instruction &I, const Value *ptrV, Val p, Val *res) {
  if (!p.isEnt()) return;
  std::string fld; bool node = accessField(x, ptrV, p, fld); int oid = p.id;
  if (x.st.ents[oid].kind == AllocaK) return;
  if (x.st.ents[oid].part >= 0) { node = true; int f = x.st.ents[oid].fld; fld = (f >= 0 ? strTab[f] : std::string("?")) + "[]"; oid = owner(x, oid); }
  if (node && res && res->k == Val::Ent && isFieldIn(fld, S.partFields) && x.st.ents[res->id].kind == Plain) x.st.ents[res->id].part = oid;
  if (res && res->k == Val::Ent && x.st.ents[res->id].kind == Plain && x.st.ents[res->id].src < 0) {
    auto &r = x.st.ents[res->id]; r.src = oid; r.fld = intern(fld);
    if (isFieldIn(fld, S.childFields)) r.fl |= F_CHILD;
    for (int t : x.st.ents[oid].taint) if (std::find(r.taint.begin(), r.taint.end(), t) == r.taint.end()) r.taint.push_back(t);
  }
  if (!node) return;
  Entity &o = x.st.ents[oid];
  if (isFieldIn(fld, S.lockword)) return;
  if (o.fl & F_FREED) { if (report(x, &I, "use-after-free", "node memory read after it was freed (" + entName(x, oid) + ")", fld)) return; }
  if ((o.fl & F_OUTREF) && S.flag("epoch") && !isPrivate(x.st, oid) && !chainHas(&I, S.readFreeFns)) { if (report(x, &I, "epoch-access", "node is used through a reference that was read before entering the epoch (" + entName(x, oid) + ")")) return; }
  if (S.flag("epoch")) { oblige("epoch-access", &I); if (x.st.epoch <= 0 && !isPrivate(x.st, oid) && !chainHas(&I, S.readFreeFns)) { if (report(x, &I, "epoch-access", "shared node read outside the epoch-protected section (" + entName(x, oid) + ", field " + fld + ")", fld)) return; } }
  if (S.flag("child_checks") && (o.fl & F_CHILD) && !chainHas(&I, S.readFreeFns)) {
    oblige("child-check", &I);
    if (!o.nz) { if (report(x, &I, "child-null", "child pointer used without a null test on this path (" + entName(x, oid) + ")", fld)) return; }
    if (S.flag("leaf_tags") && o.leaf != 0) { if (report(x, &I, "child-leaf", "child pointer used as an inner node without a leaf test on this path (" + entName(x, oid) + ")", fld)) return; }
  }
  if (auto *L = S.root.getArray("on_read")) for (auto &r : *L) { auto *w = r.getAsObject(); if (!globMatch(*w->getString("field"), fld)) continue; if (auto fn = w->getString("fn")) if (!chainHas(&I, {fn->str()})) continue; bool held = o.lock || o.shr || isPrivate(x.st, oid); if (w->getBoolean("nonnull").value_or(false) && res && res->k == Val::Ent && !(o.fl & bitOf(w->getString("unless_bit").value_or("")))) x.st.ents[res->id].nz = true; if (w->getBoolean("child").value_or(false) && res && res->k == Val::Ent) x.st.ents[res->id].fl |= F_CHILD;
    if (held) { if (auto b = w->getString("set")) x.st.ents[oid].fl |= bitOf(*b); if (auto t = w->getInteger("tag")) if (res && res->k == Val::Ent && x.st.ents[res->id].kind == Plain) { x.st.ents[res->id].tag = *t; x.st.ents[res->id].of = oid; } }
    if (!held) if (auto b = w->getString("free_set")) x.st.ents[oid].fl |= bitOf(*b);
    if (held) {} else if (w->getInteger("free_tag") && (!w->get("if_bit") || (o.fl & bitOf(w->getString("if_bit").value_or(""))))) { if (res && res->k == Val::Ent && x.st.ents[res->id].kind == Plain) { x.st.ents[res->id].tag = *w->getInteger("free_tag"); x.st.ents[res->id].of = oid; } }
    else if (w->getBoolean("free_if_src_held").value_or(false) && srcHeld(x, oid)) return; }
  if (S.flag("taint_on_use") && !o.taint.empty() && !x.st.failed && !isPrivate(x.st, oid) && !chainHas(&I, S.readFreeFns)) { oblige("validated-pointer", &I); if (report(x, &I, "unvalidated-pointer", "node pointer that was read optimistically is used before the node it came from was validated (" + entName(x, oid) + ", field " + fld + ")", fld)) return; }
  if (isFieldIn(fld, S.readFree)) return;
  if (S.flag("live_test") && !isPrivate(x.st, oid) && o.kind != HeapK && !x.st.failed && (S.liveFields.empty() || (isFieldIn(fld, S.liveFields) && !srcHeld(x, oid))) && !chainHas(&I, S.readFreeFns) && !chainHas(&I, S.liveExempt)) { oblige("live-test", &I); bool lt = o.fl & (F_LIVE | F_OBS); if (!lt && o.lock && S.flag("live_by_version")) { int t = latestTok(x.st, oid, true); lt = t >= 0 && (x.st.ents[t].fl & F_LIVE); } if (!lt) { if (report(x, &I, "obsolete-not-tested", "contents of a node are used without testing that the node is still live after it was locked or its version was read (" + entName(x, oid) + ", field " + fld + ")", fld)) return; } }
  if (o.lock || o.shr || isPrivate(x.st, oid)) { if (S.flag("locked_read")) oblige("locked-read", &I);
    if (auto *an = S.root.getObject("access_need")) if (!isPrivate(x.st, oid)) { oblige(*an->getString("rule"), &I); if (!(o.fl & bitOf(*an->getString("bit")))) if (report(x, &I, *an->getString("rule"), an->getString("msg")->str() + " (" + entName(x, oid) + ", field " + fld + ")", fld)) return; }
    return; }
  if (S.flag("locked_read") && !chainHas(&I, S.readFreeFns)) { oblige("locked-read", &I); if (report(x, &I, "unlocked-read", "field " + fld + " of a shared node is read without holding its lock (" + entName(x, oid) + ")", fld)) return; }
  if (!S.flag("optimistic")) return;
  if (x.st.failed && S.flag("failure_strict")) { oblige("abandon-failed", &I); if (report(x, &I, "continue-after-failure", "field " + fld + " of a shared node is used although a validation of the same attempt failed at " + locOf(x.st.failSite), fld)) return; }
  if (auto *L = S.root.getArray("versioned_need")) for (auto &r : *L) { auto *w = r.getAsObject(); bool ex = false; if (auto *fs = w->getArray("except")) { std::vector<std::string> v; for (auto &q : *fs) v.push_back(q.getAsString()->str()); ex = chainHas(&I, v); } if (ex) continue; oblige(*w->getString("rule"), &I); if (((o.fl & bitOf(*w->getString("bit"))) != 0) != w->getBoolean("is").value_or(true)) { if (report(x, &I, *w->getString("rule"), w->getString("msg")->str() + " (" + entName(x, oid) + ", field " + fld + ")", fld)) return; } }
  if (o.kind == HeapK) return;
  oblige("versioned-read", &I);
  int t = latestTok(x.st, oid);
  if (t < 0 && S.flag("failure_strict")) t = latestTok(x.st, oid, true); // a version known to be outdated: the reads are discarded when it is checked
  if (t < 0) { if (x.st.failed || chainHas(&I, S.readFreeFns)) return; if (report(x, &I, "unversioned-read", "field " + fld + " of a shared node is read with neither its lock nor a version taken before (" + entName(x, oid) + ")", fld)) return; }
  if (x.st.failed) return;
  x.st.ents[t].dirty |= 1; x.st.ents[t].lockSite = &I;
  if (res && res->k == Val::Ent) { auto &r = x.st.ents[res->id]; if (std::find(r.taint.begin(), r.taint.end(), t) == r.taint.end()) r.taint.push_back(t); }
}
void Engine::onWrite(X &x, const Instruction &I, const Value *ptrV, Val p, const Val *v, Type *ty) {
  if (!p.isEnt()) return;
  std::string fld; bool node = accessField(x, ptrV, p, fld); int oid = p.id;
  if (x.st.ents[oid].kind == AllocaK) return;
  if (x.st.ents[oid].part >= 0) { node = true; int f = x.st.ents[oid].fld; fld = (f >= 0 ? strTab[f] : std::string("?")) + "[]"; oid = owner(x, oid); }
  bool priv = isPrivate(x.st, oid);
  if (v && v->isEnt()) {
    if (!priv) publish(x, v->id, &I, oid);
    else if (isPrivate(x.st, v->id) && v->id != oid && x.st.ents[v->id].cont < 0) { // avoid cycles
      bool cyc = false; for (int c = oid; c >= 0; c = x.st.ents[c].cont) if (c == v->id) { cyc = true; break; }
      if (!cyc) x.st.ents[v->id].cont = oid; }
  }
  if (!priv && (!v || (ty && ty->isPointerTy())) && (!S.flag("retire_unlinked") || S.childFields.empty() || fld.empty() || fld[0] == '?' || isFieldIn(fld.size() > 2 && fld.compare(fld.size() - 2, 2, "[]") == 0 ? fld.substr(0, fld.size() - 2) : fld, S.childFields))) for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].lock && (int)i != oid) x.st.ents[i].fl |= F_REPL;
  if (!node) return;
  Entity &o = x.st.ents[oid];
  if (isFieldIn(fld, S.lockword)) return;
  if (v && v->isEnt() && S.flag("keep_src") && (o.lock || priv) && isFieldIn(fld, S.waitDown)) { auto &e = x.st.ents[v->id]; if (e.kind == Plain && v->id != oid && !e.lock) { e.src = oid; e.fld = intern(fld); } }
  o.fl |= F_WRITTEN;
  if (o.fl & F_FREED) { if (report(x, &I, "use-after-free", "node memory written after it was freed", fld)) return; }
  if (S.flag("epoch")) { oblige("epoch-access", &I); if (x.st.epoch <= 0 && !priv && !chainHas(&I, S.readFreeFns)) { if (report(x, &I, "epoch-access", "shared node written outside the epoch-protected section", fld)) return; } }
  if (priv) return;
  if (auto *L = S.root.getArray("on_write")) for (auto &r : *L) { auto *w = r.getAsObject(); if (!globMatch(*w->getString("field"), fld)) continue;
    if (auto fn = w->getString("fn")) if (!chainHas(&I, {fn->str()})) continue;
    if (auto fn = w->getString("unless_fn")) if (chainHas(&I, {fn->str()})) continue;
    if (auto vn = w->getInteger("only_val")) if (!v || v->k != Val::Int || v->v != *vn) continue;
    if (w->getBoolean("src_ok").value_or(false)) { if (o.src >= 0 && (srcHeld(x, oid) || isPrivate(x.st, o.src))) return; continue; }
    if (auto b = w->getString("skip_if")) if (o.fl & bitOf(*b)) continue;
    if (auto b = w->getString("if_bit")) if (!(o.fl & bitOf(*b))) continue;
    if (auto vn = w->getInteger("unless_val")) if (v && v->k == Val::Int && v->v == *vn) continue;
    if (auto b = w->getString("set")) o.fl |= bitOf(*b);
    if (auto cf = w->getString("cell")) { oblige(*w->getString("rule"), &I); auto d = cf->rfind('.'); bool ok = false; for (auto &c : x.st.mem) if (c.obj == oid && FT.fieldAt(cf->substr(0, d).str(), c.off) == cf->str()) { int64_t l, h; range(x, c.v, l, h); bool nz = c.v.k == Val::Ent && x.st.ents[c.v.id].nz; int64_t k = w->getInteger("cell_is").value_or(0); if (w->getBoolean("cell_not").value_or(false)) ok = l > k || h < k || (k == 0 && nz); else ok = l == k && h == k; } if (!ok) if (report(x, &I, *w->getString("rule"), w->getString("msg")->str() + " (" + entName(x, oid) + ")", fld)) return; }
    if (auto g = w->getInteger("gneed")) { oblige(*w->getString("rule"), &I); if (!(x.st.gfl >> *g & 1)) if (report(x, &I, *w->getString("rule"), w->getString("msg")->str() + " (" + entName(x, oid) + ")", fld)) return; }
    if (auto b = w->getString("need")) { oblige(*w->getString("rule"), &I); if (!(o.fl & bitOf(*b))) if (report(x, &I, *w->getString("rule"), w->getString("msg")->str() + " (" + entName(x, oid) + ")", fld)) return; }
    if (auto g = w->getInteger("gclear")) x.st.gfl &= ~(1u << *g);
    if (auto b = w->getString("lock_free_if")) if (o.fl & bitOf(*b)) return;
    if (auto b = w->getString("shared_with")) if (o.shr && (o.fl & bitOf(*b))) return; }
  if (isFieldIn(fld, S.writeFree)) return;
  if ((!flagAllocas.empty() || S.flag("failure_strict")) && x.st.failed) { oblige("abandon-failed", &I); if (report(x, &I, "continue-after-failure", "field " + fld + " of a shared node is written although a lock or validation of the same attempt failed at " + locOf(x.st.failSite), fld)) return; }
  if (!S.flag("exclusive")) return;
  oblige("exclusive-write", &I);
  if (!o.lock) {
    if (o.kind == HeapK) report(x, &I, "write-after-publish", "field " + fld + " of a node is written after the node became reachable, without its lock (" + entName(x, oid) + ")", fld);
    else report(x, &I, "unlocked-write", "field " + fld + " of a shared node is written without holding its exclusive lock (" + entName(x, oid) + ")", fld);
  }
}
// fields of local bookkeeping structures whose values are not followed
bool Engine::isForgotten(const Value *ptrV) { if (S.forget.empty()) return false; for (auto &t : desc(ptrV).types) if (t.second >= 0 && isFieldIn(FT.fieldAt(t.first, t.second), S.forget)) return true; return false; }
bool Engine::isNoise(const Value *ptrV) { if (S.noise.empty()) return false; for (auto &t : desc(ptrV).types) if (t.second >= 0 && isFieldIn(FT.fieldAt(t.first, t.second), S.noise)) return true; return false; }
Val Engine::loadMem(X &x, const Instruction &I, const Value *ptrV, Val p, Type *ty) {
  if (!p.isEnt()) { x.dead = true; return Val(); }
  int sz = DL.getTypeStoreSize(ty).getFixedValue(); Entity &o = x.st.ents[p.id]; Val r;
  if (o.kind == AllocaK && isNoise(ptrV)) return Val();
  bool memo = o.kind == AllocaK || o.lock || isPrivate(x.st, p.id); bool fromCell = false;
  if (p.k == Val::Ent && memo) if (auto *c = cell(x.st, p.id, p.v, sz)) { r = c->v; fromCell = true; }
  if (!fromCell) {
    if (o.kind == AllocaK && !(o.fl & F_HAVOC) && p.k == Val::Ent) {
      bool part = false; for (auto &c : x.st.mem) if (c.obj == p.id && c.off < p.v + sz && p.v < c.off + c.sz) part = true;
      if (!part) return Val();
    }
    if (o.kind == GlobalK && p.k == Val::Ent) if (auto *GV = dyn_cast<GlobalVariable>((const Value *)o.anchor)) if (GV->isConstant() && GV->hasInitializer() && p.v == 0)
      if (auto *ci = dyn_cast<ConstantInt>(GV->getInitializer())) if (ci->getType() == ty) return Val::I(ci->getSExtValue());
    r = freshV(x, &I);
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (L->getMetadata(LLVMContext::MD_nonnull)) x.st.ents[r.id].nz = true;
      if (auto *R = L->getMetadata(LLVMContext::MD_range)) if (R->getNumOperands() == 2) {
        auto *a = mdconst::extract<ConstantInt>(R->getOperand(0)), *b = mdconst::extract<ConstantInt>(R->getOperand(1)); if (a->getZExtValue() < b->getZExtValue()) { x.st.ents[r.id].lo = a->getZExtValue(); x.st.ents[r.id].hi = b->getZExtValue() - 1; } }
    }
    if (p.k == Val::Ent && memo && (x.st.ents[p.id].kind == AllocaK || !isForgotten(ptrV))) putCell(x.st, p.id, p.v, sz, r);
    if (x.st.ents[p.id].kind == HeapK && (x.st.ents[p.id].fl & F_PARAM) && !S.heldFields.empty()) { const AccessDesc &d = desc(ptrV); for (auto &t : d.types) if (t.second >= 0 && isFieldIn(FT.fieldAt(t.first, t.second), S.heldFields)) { auto &e = x.st.ents[r.id]; fork(x, [&](X &y) { y.st.ents[r.id] = Entity(); set(y, &I, Val::I(0)); if (auto *c = cell(y.st, p.id, p.v, sz)) c->v = Val::I(0); return true; }); e.shr = 1; e.nz = true; e.fl |= F_NODE | F_U1; if (auto *hb = S.root.getArray("held_bits")) for (auto &b : *hb) e.fl |= bitOf(*b.getAsObject()->getString("bit")); e.fld = intern("iterator"); } }
  }
  onRead(x, I, ptrV, p, fromCell ? nullptr : &r);
  return r;
}
void Engine::newAttempt(X &x, const Instruction *I) {
  x.st.lost = false; x.st.lostSite = nullptr; x.st.failed = false; x.st.failSite = nullptr;
  for (auto &e : x.st.ents) { if (e.kind == VerK) e.dirty = 0; e.fl &= ~F_ROOTPEND; }
}
void Engine::fail(X &x, const Instruction *I) { x.st.failed = true; x.st.failSite = I; x.st.lost = false; for (auto &e : x.st.ents) { if (e.kind == VerK) e.dirty = 0; e.fl &= ~F_ROOTPEND; } }
void Engine::storeMem(X &x, const Instruction &I, const Value *ptrV, Val p, Val v, Type *ty, uint64_t sz) {
  if (!p.isEnt()) { x.dead = true; return; }
  Entity &o = x.st.ents[p.id];
  if (o.kind == AllocaK) {
    if (flagAllocas.count((const Value *)o.anchor) && v.k == Val::Int && v.v == 0 && p.k == Val::Ent && p.v == 0) newAttempt(x, &I);
    if (flagAllocas.count((const Value *)o.anchor) && v.k == Val::Int && (v.v & 1) && p.k == Val::Ent && p.v == 0) fail(x, &I);
    if (p.k == Val::Ent && isNoise(ptrV)) killOverlap(x.st, p.id, p.v, sz); else if (p.k == Val::Ent) putCell(x.st, p.id, p.v, sz, v); else { dropCells(x.st, p.id); x.st.ents[p.id].fl |= F_HAVOC; }
    if (v.isEnt() && isPrivate(x.st, v.id)) {}
    return;
  }
  onWrite(x, I, ptrV, p, &v, ty); if (x.dead) return;
  if (p.k == Val::Ent) { if ((x.st.ents[p.id].lock || isPrivate(x.st, p.id)) && !isForgotten(ptrV)) putCell(x.st, p.id, p.v, sz, v); else killOverlap(x.st, p.id, p.v, sz); }
  else dropCells(x.st, p.id);
}

// ---------------------------------------------------------------- forks
// references to entities are held across calls that may create some: keep room so that they stay valid within one step
void Engine::slack(X &x) { auto &v = x.st.ents; if (v.capacity() - v.size() < 40) v.reserve(v.size() + 64); }
void Engine::fork(X &x, const std::function<bool(X &)> &alt) {
  X y = x; y.dead = false; ++y.it; slack(y);
  if (alt(y) && !y.dead) work.push_back(std::move(y));
}

// ---------------------------------------------------------------- instructions
bool Engine::step(X &x, const Instruction &I) {
  steps++; slack(x);
  auto bitsOf = [&](Type *T) -> unsigned { if (T->isIntegerTy()) return T->getIntegerBitWidth(); return 64; };
  auto derive = [&](int op, Val a, Val b, Type *ty) -> Val {
    for (auto &m : x.st.memos) if (m.op == op && m.a == a && m.b == b) return m.r;
    Val r = freshV(x, &I);
    for (auto &v : {a, b}) if (v.isEnt()) for (int t : x.st.ents[v.id].taint) { auto &tt = x.st.ents[r.id].taint; if (std::find(tt.begin(), tt.end(), t) == tt.end()) tt.push_back(t); }
    if (a.k != Val::EntU && b.k != Val::EntU && (a.isEnt() || b.isEnt()) && a.k != Val::Undef && b.k != Val::Undef) x.st.memos.push_back({op, a, b, r});
    return r;
  };
  if (isa<DbgInfoIntrinsic>(I)) return true;
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    int id = fresh(x, AllocaK, &I); x.st.ents[id].anchor = &I; set(x, &I, Val::E(id)); return true; }
  case Instruction::Load: {
    auto &L = cast<LoadInst>(I);
    if (L.getType()->isStructTy()) { Val p = get(x, L.getPointerOperand()); onRead(x, I, L.getPointerOperand(), p, nullptr); unsigned n = leafCount(L.getType()); auto b = num[&I]; for (unsigned i = 0; i < n; i++) x.sc[b + i] = freshV(x, &I); return !x.dead; }
    Val r = loadMem(x, I, L.getPointerOperand(), get(x, L.getPointerOperand()), L.getType()); if (x.dead) return false; set(x, &I, r); return true; }
  case Instruction::Store: {
    auto &St = cast<StoreInst>(I); Val v = get(x, St.getValueOperand());
    if (St.getValueOperand()->getType()->isStructTy()) v = freshV(x, &I);
    storeMem(x, I, St.getPointerOperand(), get(x, St.getPointerOperand()), v, St.getValueOperand()->getType(), DL.getTypeStoreSize(St.getValueOperand()->getType()).getFixedValue()); return !x.dead; }
  case Instruction::AtomicRMW: {
    auto &A = cast<AtomicRMWInst>(I); Val p = get(x, A.getPointerOperand()); Val old = loadMem(x, I, A.getPointerOperand(), p, A.getType()); if (x.dead) return false;
    Val v = A.getOperation() == AtomicRMWInst::Xchg ? get(x, A.getValOperand()) : freshV(x, &I);
    storeMem(x, I, A.getPointerOperand(), p, v, A.getType(), DL.getTypeStoreSize(A.getType()).getFixedValue()); if (x.dead) return false; set(x, &I, old); return true; }
  case Instruction::AtomicCmpXchg: {
    auto &A = cast<AtomicCmpXchgInst>(I); Val p = get(x, A.getPointerOperand()); Type *T = A.getNewValOperand()->getType();
    Val old = loadMem(x, I, A.getPointerOperand(), p, T); if (x.dead) return false; unsigned b = num[&I];
    fork(x, [&](X &y) { y.sc[b] = old; y.sc[b + 1] = Val::I(0); return true; });
    storeMem(x, I, A.getPointerOperand(), p, get(x, A.getNewValOperand()), T, DL.getTypeStoreSize(T).getFixedValue()); if (x.dead) return false;
    x.sc[b] = get(x, A.getCompareOperand()); x.sc[b + 1] = Val::I(1); return true; }
  case Instruction::Fence: return true;
  case Instruction::GetElementPtr: {
    auto &G = cast<GetElementPtrInst>(I); Val p = get(x, G.getPointerOperand());
    if (G.getType()->isVectorTy()) { set(x, &I, freshV(x, &I)); return true; }
    if (p.k == Val::Undef) { set(x, &I, Val()); return true; }
    MapVector<Value *, APInt> var; APInt c(64, 0); bool ok = G.collectOffset(DL, 64, var, c); int64_t off = c.getSExtValue();
    if (ok) for (auto &kv : var) { Val v = get(x, kv.first); if (v.k == Val::Int) off += v.v * kv.second.getSExtValue(); else { ok = false; break; } }
    if (p.k == Val::Int) { set(x, &I, ok ? Val::I(p.v + off) : freshV(x, &I)); return true; }
    if (!ok || p.k == Val::EntU) set(x, &I, Val::U(p.id)); else set(x, &I, Val::E(p.id, p.v + off));
    return true; }
  case Instruction::ICmp: {
    auto &C = cast<ICmpInst>(I); if (C.getType()->isVectorTy()) { set(x, &I, freshV(x, &I)); return true; }
    Val a = get(x, C.getOperand(0)), b = get(x, C.getOperand(1)); bool ptr = C.getOperand(0)->getType()->isPointerTy(); unsigned bits = bitsOf(C.getOperand(0)->getType());
    if (a.k == Val::Undef || b.k == Val::Undef) { fork(x, [&](X &y) { set(y, &I, Val::I(0)); return true; }); set(x, &I, Val::I(1)); return true; }
    int t = tri(x, C.getPredicate(), a, b, bits, ptr);
    if (t >= 0) { set(x, &I, Val::I(t)); return true; }
    auto pr = C.getPredicate();
    fork(x, [&](X &y) { if (!assume(y, pr, a, b, false, bits, ptr)) return false; set(y, &I, Val::I(0)); return true; });
    if (!assume(x, pr, a, b, true, bits, ptr)) { x.dead = true; return false; }
    set(x, &I, Val::I(1)); return true; }
  case Instruction::FCmp: { if (I.getType()->isVectorTy()) { set(x, &I, freshV(x, &I)); return true; } fork(x, [&](X &y) { set(y, &I, Val::I(0)); return true; }); set(x, &I, Val::I(1)); return true; }
  case Instruction::Select: {
    auto &Se = cast<SelectInst>(I); if (Se.getCondition()->getType()->isVectorTy()) { set(x, &I, freshV(x, &I)); return true; }
    Val c = get(x, Se.getCondition());
    if (c.k == Val::Int) { set(x, &I, get(x, c.v & 1 ? Se.getTrueValue() : Se.getFalseValue())); return true; }
    fork(x, [&](X &y) { if (c.isEnt() && !refineEq(y, c, 0, true)) return false; set(y, &I, get(y, Se.getFalseValue())); return true; });
    if (c.isEnt() && !refineEq(x, c, 0, false)) { x.dead = true; return false; }
    set(x, &I, get(x, Se.getTrueValue())); return true; }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
    Val a = get(x, I.getOperand(0)); Type *ft = I.getOperand(0)->getType(), *tt = I.getType();
    if (ft->isVectorTy() || tt->isVectorTy() || tt->isFloatingPointTy() || ft->isFloatingPointTy()) { set(x, &I, freshV(x, &I)); return true; }
    if (a.k == Val::Undef) { set(x, &I, a); return true; }
    unsigned fb = bitsOf(ft), tb = bitsOf(tt);
    if (a.k == Val::Int) { int64_t v = a.v;
      if (I.getOpcode() == Instruction::ZExt && fb < 64) v = (int64_t)((uint64_t)v & ((1ULL << fb) - 1));
      if (I.getOpcode() == Instruction::SExt && fb == 1) v = (v & 1) ? -1 : 0;
      if (I.getOpcode() == Instruction::Trunc && tb < 64) { if (tb == 1) v &= 1; else { int sh = 64 - tb; v = (int64_t)((uint64_t)v << sh) >> sh; } }
      set(x, &I, Val::I(v)); return true; }
    if (I.getOpcode() == Instruction::ZExt || I.getOpcode() == Instruction::Trunc) {
      int64_t lo, hi; range(x, a, lo, hi); unsigned b = std::min(fb, tb); int64_t mx = b >= 63 ? POS : (b == 1 ? 1 : (int64_t)((1ULL << (I.getOpcode() == Instruction::Trunc ? b - 1 : b)) - 1));
      if (lo >= 0 && hi <= mx) { set(x, &I, a); return true; }
      Val r = derive(1000 + I.getOpcode() * 70 + (int)tb, a, Val::I(0), tt);
      if (r.isEnt()) { auto &e = x.st.ents[r.id]; if (I.getOpcode() == Instruction::ZExt && fb < 63 && e.lo < 0) { e.lo = 0; e.hi = std::min(e.hi, (int64_t)((1ULL << fb) - 1)); if (e.nz == false && a.k == Val::Ent && a.v == 0 && x.st.ents[a.id].nz) e.nz = true; } if (tb == 1 && e.lo < 0) { e.lo = 0; e.hi = 1; }
        if (I.getOpcode() == Instruction::ZExt && a.k == Val::Ent && a.v == 0 && e.tag == 0 && e.kind == Plain && x.st.ents[a.id].tag) { e.tag = x.st.ents[a.id].tag; e.of = x.st.ents[a.id].of; } }
      set(x, &I, r); return true; }
    set(x, &I, a); return true; }
  case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); Type *AT = E.getAggregateOperand()->getType();
    if (auto *ST = dyn_cast<StructType>(AT)) { // leaf index
      unsigned idx = 0; Type *cur = ST; bool ok = true;
      for (unsigned k : E.indices()) { auto *s = dyn_cast<StructType>(cur); if (!s) { ok = false; break; } for (unsigned j = 0; j < k; j++) idx += leafCount(s->getElementType(j)); cur = s->getElementType(k); }
      if (ok && !isa<StructType>(cur)) { set(x, &I, getAgg(x, E.getAggregateOperand(), idx)); return true; } }
    set(x, &I, freshV(x, &I)); return true; }
  case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); auto *ST = dyn_cast<StructType>(I.getType());
    if (!ST) { set(x, &I, freshV(x, &I)); return true; }
    unsigned n = leafCount(ST), b = num[&I]; for (unsigned i = 0; i < n; i++) x.sc[b + i] = getAgg(x, E.getAggregateOperand(), i);
    unsigned idx = 0; Type *cur = ST; bool ok = true; for (unsigned k : E.indices()) { auto *s = dyn_cast<StructType>(cur); if (!s) { ok = false; break; } for (unsigned j = 0; j < k; j++) idx += leafCount(s->getElementType(j)); cur = s->getElementType(k); }
    if (ok && !isa<StructType>(cur)) x.sc[b + idx] = get(x, E.getInsertedValueOperand()); return true; }
  case Instruction::Call: call(x, cast<CallBase>(I)); return !x.dead;
  case Instruction::Unreachable: x.dead = true; return false;
  default: break;
  }
  if (auto *B = dyn_cast<BinaryOperator>(&I)) {
    if (B->getType()->isVectorTy() || B->getType()->isFloatingPointTy()) { set(x, &I, freshV(x, &I)); return true; }
    Val a = get(x, B->getOperand(0)), b = get(x, B->getOperand(1)); unsigned bits = bitsOf(B->getType());
    if (a.k == Val::Undef && b.k == Val::Undef) { set(x, &I, Val()); return true; }
    if (a.k == Val::Int && b.k == Val::Int && bits <= 64) {
      APInt A(bits, (uint64_t)a.v), C(bits, (uint64_t)b.v), R(bits, 0); bool ok = true;
      switch (B->getOpcode()) { case Instruction::Add: R = A + C; break; case Instruction::Sub: R = A - C; break; case Instruction::Mul: R = A * C; break; case Instruction::And: R = A & C; break; case Instruction::Or: R = A | C; break; case Instruction::Xor: R = A ^ C; break;
      case Instruction::Shl: ok = C.ult(bits); if (ok) R = A.shl(C); break; case Instruction::LShr: ok = C.ult(bits); if (ok) R = A.lshr(C); break; case Instruction::AShr: ok = C.ult(bits); if (ok) R = A.ashr(C); break;
      case Instruction::UDiv: ok = C != 0; if (ok) R = A.udiv(C); break; case Instruction::URem: ok = C != 0; if (ok) R = A.urem(C); break; case Instruction::SDiv: ok = C != 0; if (ok) R = A.sdiv(C); break; case Instruction::SRem: ok = C != 0; if (ok) R = A.srem(C); break; default: ok = false; }
      if (ok) { set(x, &I, Val::I(bits == 1 ? (int64_t)R.getZExtValue() : R.getSExtValue())); return true; }
    }
    if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) {
      bool sub = B->getOpcode() == Instruction::Sub;
      if (b.k == Val::Int && a.k == Val::Ent) { int64_t o = a.v + (sub ? -b.v : b.v); if (std::abs(o) <= WIDE_NUM || o == 0) { set(x, &I, Val::E(a.id, o)); return true; } }
      if (!sub && a.k == Val::Int && b.k == Val::Ent) { int64_t o = b.v + a.v; if (std::abs(o) <= WIDE_NUM) { set(x, &I, Val::E(b.id, o)); return true; } }
      if (sub && a.k == Val::Ent && b.k == Val::Ent && a.id == b.id) { set(x, &I, Val::I(a.v - b.v)); return true; }
    }
    if (bits == 64 && B->getOpcode() == Instruction::And && b.k == Val::Int && a.k == Val::Ent && a.v == 0 && leafMask && b.v == leafMask) {
      auto &e = x.st.ents[a.id]; if (e.kind == HeapK) { set(x, &I, Val::I(0)); return true; } if (e.leaf >= 0) { set(x, &I, Val::I(e.leaf ? leafMask : 0)); return true; }
      int id = a.id; fork(x, [&](X &y) { y.st.ents[id].leaf = 1; y.st.ents[id].nz = true; set(y, &I, Val::I(leafMask)); return true; }); x.st.ents[id].leaf = 0; set(x, &I, Val::I(0)); return true; }
    if (b.k == Val::Int && b.v == 0 && a.isEnt()) switch (B->getOpcode()) { case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: set(x, &I, a); return true; case Instruction::And: set(x, &I, Val::I(0)); return true; default: break; }
    if (a.k == Val::Int && a.v == 0 && b.isEnt()) switch (B->getOpcode()) { case Instruction::Or: case Instruction::Xor: set(x, &I, b); return true; case Instruction::And: case Instruction::Mul: set(x, &I, Val::I(0)); return true; default: break; }
    if (bits > 1 && bits <= 64 && (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or)) { // bitwise combination of truth values
      auto isB = [&](const Val &v) { if (v.k == Val::Int) return v.v == 0 || v.v == 1; int64_t l, h; range(x, v, l, h); return v.k == Val::Ent && v.v == 0 && l >= 0 && h <= 1; };
      if (isB(a) && isB(b)) { const Val &e = a.isEnt() ? a : b; const Val &o = a.isEnt() ? b : a;
        if (o.k == Val::Int) { set(x, &I, (B->getOpcode() == Instruction::And) == (o.v == 1) ? e : o); return true; }
        Val ev = e; fork(x, [&](X &y) { if (!refineEq(y, ev, 0, true)) return false; set(y, &I, B->getOpcode() == Instruction::And ? Val::I(0) : b); return true; });
        if (!refineEq(x, ev, 0, false)) { x.dead = true; return false; } set(x, &I, B->getOpcode() == Instruction::And ? b : Val::I(1)); return true; } }
    if (bits == 1 && (B->getOpcode() == Instruction::Xor || B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or)) {
      Val e = a.isEnt() ? a : b; const Value *ev = a.isEnt() ? B->getOperand(0) : B->getOperand(1);
      if (e.isEnt()) { (void)ev; // decide the boolean, then redo the instruction
        X y = x; if (refineEq(y, e, 0, true)) { if (num.count(ev)) y.sc[num[ev]] = Val::I(0); work.push_back(y); }
        if (!refineEq(x, e, 0, false)) { x.dead = true; return false; } if (num.count(ev)) x.sc[num[ev]] = Val::I(1); return step(x, I); }
    }
    Val r = derive(B->getOpcode() * 100 + (int)bits, a, b, B->getType());
    if (r.isEnt()) { auto &e = x.st.ents[r.id];
      if (B->getOpcode() == Instruction::And) { int64_t m = b.k == Val::Int ? b.v : (a.k == Val::Int ? a.v : -1); if (m >= 0 && e.lo < 0) { e.lo = 0; e.hi = std::min(e.hi, m); } }
      if (B->getOpcode() == Instruction::LShr && b.k == Val::Int && b.v > 0 && e.lo < 0) { e.lo = 0; if (bits - b.v < 62) e.hi = std::min(e.hi, (int64_t)((1ULL << (bits - b.v)) - 1)); }
      if (B->getOpcode() == Instruction::URem && b.k == Val::Int && b.v > 0 && e.lo < 0) { e.lo = 0; e.hi = std::min(e.hi, b.v - 1); }
      if (bits >= 32 && e.kind == Plain && e.lo < 0 && e.hi >= 0) { int64_t l1, h1, l2, h2; range(x, a, l1, h1); range(x, b, l2, h2); bool nsw = false; if (auto *OB = dyn_cast<OverflowingBinaryOperator>(B)) nsw = OB->hasNoSignedWrap();
        switch (B->getOpcode()) { case Instruction::Add: case Instruction::Mul: if (nsw && l1 >= 0 && l2 >= 0) e.lo = 0; break; case Instruction::AShr: case Instruction::LShr: case Instruction::UDiv: if (l1 >= 0) e.lo = 0; break; case Instruction::SDiv: case Instruction::SRem: if (l1 >= 0 && l2 >= 0) e.lo = 0; break; default: break; } }
      if (B->getOpcode() == Instruction::Or && ((b.k == Val::Int && b.v != 0) || (a.k == Val::Int && a.v != 0))) e.nz = true;
      if (e.lo == e.hi && e.kind == Plain) { set(x, &I, Val::I(e.lo)); return true; }
    }
    set(x, &I, r); return true;
  }
  if (!I.getType()->isVoidTy()) set(x, &I, freshV(x, &I));
  return true;
}

void Engine::havocArgs(X &x, const CallBase &C) {
  for (auto &A : C.args()) {
    if (!A->getType()->isPointerTy()) continue;
    Val v = get(x, A.get()); if (!v.isEnt()) continue;
    std::vector<int> todo{v.id}; std::set<int> seen;
    while (!todo.empty()) { int e = todo.back(); todo.pop_back(); if (!seen.insert(e).second) continue;
      if (x.st.ents[e].kind == AllocaK) {
        bool ro = e == v.id && C.paramHasAttr(A.getOperandNo(), Attribute::ReadOnly); if (ro) continue;
        for (auto &c : x.st.mem) if (c.obj == e && c.v.isEnt() && x.st.ents[c.v.id].kind == AllocaK) todo.push_back(c.v.id);
        bool flag = flagAllocas.count((const Value *)x.st.ents[e].anchor);
        if (!flag) { dropCells(x.st, e); x.st.ents[e].fl |= F_HAVOC; } else { dropCells(x.st, e); x.st.ents[e].fl |= F_HAVOC; }
      } else if (x.st.ents[e].lock) dropCells(x.st, e);
    }
  }
}

void Engine::call(X &x, const CallBase &C) {
  const Function *f = C.getCalledFunction();
  if (!f) if (auto *g = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts())) f = g;
  if (f && f->getName().starts_with("__undef.")) { set(x, &C, Val()); return; }
  if (auto *II = dyn_cast<IntrinsicInst>(&C)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Val p = get(x, II->getArgOperand(1)); if (p.k == Val::Ent && x.st.ents[p.id].kind == AllocaK) { dropCells(x.st, p.id); x.st.ents[p.id].fl &= ~F_HAVOC; } return; }
    case Intrinsic::expect: set(x, &C, get(x, II->getArgOperand(0))); return;
    case Intrinsic::assume: { Val v = get(x, II->getArgOperand(0)); if (v.k == Val::Int && !(v.v & 1)) x.dead = true; return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: x.dead = true; return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: {
      Val d = get(x, II->getArgOperand(0)); Val len = get(x, II->getArgOperand(2));
      if (!d.isEnt()) { if (d.k == Val::Int && len.k == Val::Int && len.v == 0) return; x.dead = true; return; }
      if (len.k == Val::Int && len.v == 0) return;
      std::vector<Cell> copied; bool exact = false;
      if (II->getIntrinsicID() != Intrinsic::memset) {
        Val s = get(x, II->getArgOperand(1)); if (!s.isEnt()) { x.dead = true; return; }
        if (len.k == Val::Int && len.v == 8 && x.st.ents[s.id].kind != AllocaK && S.flag("copy_words")) { Type *T = PointerType::get(C.getContext(), 0); Val r = loadMem(x, C, II->getArgOperand(1), s, T); if (x.dead) return; storeMem(x, C, II->getArgOperand(0), d, r, T, 8); return; }
        onRead(x, C, II->getArgOperand(1), s, nullptr); if (x.dead) return;
        if (s.k == Val::Ent && d.k == Val::Ent && len.k == Val::Int && (x.st.ents[s.id].kind == AllocaK)) { exact = true; for (auto &c : x.st.mem) if (c.obj == s.id && c.off >= s.v && c.off + c.sz <= s.v + len.v) copied.push_back({d.id, c.off - s.v + d.v, c.sz, c.v}); if (x.st.ents[s.id].fl & F_HAVOC) exact = false; }
      }
      onWrite(x, C, II->getArgOperand(0), d, nullptr, nullptr); if (x.dead) return;
      if (d.k == Val::Ent && len.k == Val::Int) { killOverlap(x.st, d.id, d.v, (int)len.v); if (x.st.ents[d.id].kind == AllocaK || x.st.ents[d.id].lock || isPrivate(x.st, d.id)) for (auto &c : copied) putCell(x.st, c.obj, c.off, c.sz, c.v); if (x.st.ents[d.id].kind == AllocaK && !exact) x.st.ents[d.id].fl |= F_HAVOC;
        for (auto &c : copied) if (c.v.isEnt() && x.st.ents[d.id].kind != AllocaK && !isPrivate(x.st, d.id)) publish(x, c.v.id, &C); }
      else { dropCells(x.st, d.id); if (x.st.ents[d.id].kind == AllocaK) x.st.ents[d.id].fl |= F_HAVOC; }
      return; }
    default: break;
    }
    if (!C.getType()->isVoidTy()) { Val r = freshV(x, &C);
      auto id = II->getIntrinsicID(); if (id == Intrinsic::ctpop || id == Intrinsic::ctlz || id == Intrinsic::cttz) { x.st.ents[r.id].lo = 0; x.st.ents[r.id].hi = 64; }
      set(x, &C, r); if (C.getType()->isStructTy()) { unsigned n = leafCount(C.getType()), b = num[&C]; for (unsigned i = 1; i < n; i++) x.sc[b + i] = freshV(x, &C); } }
    return;
  }
  if (!f && !C.isInlineAsm()) { Val cv = get(x, C.getCalledOperand()); if (cv.isEnt() && x.st.ents[cv.id].fld >= 0) { std::string k = "*" + strTab[x.st.ents[cv.id].fld]; auto it = S.prims.find(k); if (it != S.prims.end()) { P.matchedPrims.insert(k); stats["prim_calls"]++; ops(x, C, it->second, k, Val(), false); return; } } }
  if (!f && !C.isInlineAsm()) if (auto *L = dyn_cast<LoadInst>(C.getCalledOperand())) for (auto &t : desc(L->getPointerOperand()).types) if (t.second >= 0) { std::string k = "*" + FT.fieldAt(t.first, t.second); auto it = S.prims.find(k); if (it == S.prims.end()) { k = "*" + FT.innerAt(t.first, t.second); it = S.prims.find(k); } if (it != S.prims.end()) { P.matchedPrims.insert(k); stats["prim_calls"]++; ops(x, C, it->second, k, Val(), false); return; } }
  if (!f && !C.isInlineAsm()) { Val cv = get(x, C.getCalledOperand()); if (cv.isEnt() && (x.st.ents[cv.id].fl & F_PARAM)) { auto it = S.prims.find("*param"); if (it != S.prims.end()) { P.matchedPrims.insert("*param"); stats["prim_calls"]++; ops(x, C, it->second, "*param", Val(), false); return; } } }
  if (f) {
    const std::string &n = P.nameOf(f);
    auto it = S.prims.find(n);
    if (it != S.prims.end()) { stats["prim_calls"]++; sites["prim." + n].insert(entryName + "@" + locOf(&C)); ops(x, C, it->second, n, Val(), false); return; }
    StringRef nr(n);
    if (nr.starts_with("__venter.")) { ops(x, C, S.enterMarks[nr.drop_front(9)], nr.drop_front(9), Val(), true); return; }
    if (nr.starts_with("__vexit.")) { auto nm = nr.drop_front(8); Val rv = C.arg_size() ? get(x, C.getArgOperand(C.arg_size() - 1)) : Val(); ops(x, C, S.exitMarks[nm], nm, rv, true); return; }
    for (auto &d : S.dead) if (globMatch(d, n)) { x.dead = true; return; }
    static const std::set<std::string> deadFns = {"__assert_fail", "abort", "exit", "_exit", "__cxa_throw", "__cxa_rethrow", "std::terminate", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length", "__cxa_pure_virtual", "__clang_call_terminate", "perror_exit"};
    if (deadFns.count(n) || nr.starts_with("std::__throw_")) { x.dead = true; return; }
    if (f->doesNotReturn()) { x.dead = true; return; }
    if (n == "malloc" || n == "calloc" || n == "operator_new" || n == "operator_new_arr" || n == "aligned_alloc" || n == "_mm_malloc") { int id = fresh(x, HeapK, &C); if (S.flag("own_malloc")) { x.st.ents[id].fl |= F_OWN; fork(x, [&](X &y) { y.st.ents[id].fl &= ~F_OWN; set(y, &C, Val::I(0)); return true; }); } set(x, &C, Val::E(id)); stats["allocs"]++; return; }
    if (n == "posix_memalign") { int id = fresh(x, HeapK, &C); Val p = get(x, C.getArgOperand(0)); if (p.k == Val::Ent && x.st.ents[p.id].kind == AllocaK) putCell(x.st, p.id, p.v, 8, Val::E(id)); set(x, &C, Val::I(0)); return; }
    if (n == "free" || n == "operator_delete" || n == "operator_delete_arr" || n == "_mm_free") {
      Val p = get(x, C.getArgOperand(0)); if (!p.isEnt()) return; auto &e = x.st.ents[p.id];
      if (S.flag("free_check")) { oblige("free", &C); if ((e.fl & F_NODE) && !isPrivate(x.st, p.id) && !(EO && EO->getBoolean("may_free").value_or(false))) { if (report(x, &C, "free-shared", "a node other operations may still be reading is freed directly instead of being retired (" + entName(x, p.id) + ")")) return; } if (e.fl & F_FREED) { if (report(x, &C, "double-free", "memory freed twice on one path")) return; } }
      e.fl |= F_FREED; for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].cont == p.id) x.st.ents[i].fl &= ~F_OWN; dropCells(x.st, p.id); return; }
    if (n == "memcmp" || n == "strcmp" || n == "memchr" || n == "strlen" || n == "sched_yield" || n == "bcmp") { for (unsigned i = 0; i < C.arg_size() && i < 2; i++) if (C.getArgOperand(i)->getType()->isPointerTy()) { Val p = get(x, C.getArgOperand(i)); onRead(x, C, C.getArgOperand(i), p, nullptr); if (x.dead) return; } if (!C.getType()->isVoidTy()) set(x, &C, freshV(x, &C)); return; }
    if (C.isInlineAsm()) {}
    stats["opaque_calls"]++; sites["opaque." + n].insert(locOf(&C));
  } else if (C.isInlineAsm()) {
    for (auto &A : C.args()) if (A->getType()->isPointerTy()) { Val p = get(x, A.get()); if (p.isEnt() && x.st.ents[p.id].kind == AllocaK) { dropCells(x.st, p.id); x.st.ents[p.id].fl |= F_HAVOC; } }
    if (!C.getType()->isVoidTy()) { set(x, &C, freshV(x, &C)); if (C.getType()->isStructTy()) { unsigned n = leafCount(C.getType()), b = num[&C]; for (unsigned i = 0; i < n; i++) x.sc[b + i] = freshV(x, &C); } }
    return;
  } else stats["indirect_calls"]++;
  havocArgs(x, C);
  if (!C.getType()->isVoidTy()) { set(x, &C, freshV(x, &C)); if (C.getType()->isStructTy()) { unsigned n = leafCount(C.getType()), b = num[&C]; for (unsigned i = 0; i < n; i++) x.sc[b + i] = freshV(x, &C); }
    if (C.getType()->isPointerTy() && C.hasRetAttr(Attribute::NonNull)) { Val r = get(x, &C); if (r.isEnt()) x.st.ents[r.id].nz = true; } }
}

static uint32_t bitOf(StringRef s) { return s == "U1" ? F_U1 : s == "U2" ? F_U2 : s == "U3" ? F_U3 : s == "U4" ? F_U4 : s == "U5" ? F_U5 : s == "U6" ? F_U6 : s == "U7" ? F_U7 : s == "U8" ? F_U8 : s == "U9" ? F_U9 : s == "U10" ? F_U10 : s == "U11" ? F_U11 : s == "OWN" ? F_OWN : s == "OBS" ? F_OBS : s == "RET" ? F_RET : s == "REPL" ? F_REPL : s == "NOTFULL" ? F_NOTFULL : 0; }

// Apply a list of effects at call C. For prims, produces the call's result.
bool Engine::ops(X &x, const CallBase &C, const json::Array &L, StringRef name, Val ret, bool isMark) {
  bool retSet = isMark || C.getType()->isVoidTy(); 
  auto setRet = [&](X &y, Val v) { if (!isMark && !C.getType()->isVoidTy()) set(y, &C, v); };
  for (auto &ov : L) {
    auto *o = ov.getAsObject(); if (!o) continue; StringRef op = *o->getString("op");
    if (auto g = o->getInteger("if_g")) if (!(x.st.gfl >> *g & 1)) continue;
    if (auto g = o->getInteger("unless_g")) if (x.st.gfl >> *g & 1) continue;
    if (o->get("if_field") || o->get("unless_field")) { bool m = false; unsigned fi = o->getInteger("field_of").value_or(0); auto pat = o->getString("if_field") ? *o->getString("if_field") : *o->getString("unless_field"); if (fi < C.arg_size()) for (auto &t : desc(C.getArgOperand(fi)).types) if (t.second >= 0 && globMatch(pat, FT.fieldAt(t.first, t.second))) m = true; if (m != (o->get("if_field") != nullptr)) continue; }
    Val loaded; bool useLoaded = o->getBoolean("obj_load").value_or(false); int verTok = -1; bool verLocal = false;
    auto arg = [&](X &y, StringRef k) -> Val { auto *v = o->get(k); if (!v) return Val(); if (useLoaded && loaded.k != Val::Undef && k == "obj") return loaded; if (auto i = v->getAsInteger()) return *i < (int64_t)C.arg_size() ? get(y, C.getArgOperand(*i)) : Val(); if (auto s = v->getAsString()) if (*s == "ret") return isMark ? ret : get(y, &C); return Val(); };
    if (o->getBoolean("obj_load").value_or(false)) { // the object is what the argument points to
      auto rawArg = arg; unsigned ai = o->getInteger("obj").value_or(0); Val p = rawArg(x, "obj"); Val lv; if (ai < C.arg_size() && p.isEnt()) lv = loadMem(x, C, C.getArgOperand(ai), p, Type::getInt64Ty(C.getContext())); if (x.dead) return false; loaded = lv; }
    if (o->getBoolean("via_ver").value_or(false) && !useLoaded) { // a local copy of a version stands for the node it was taken from
      Val p = arg(x, "obj"); if (p.k == Val::Ent && x.st.ents[p.id].kind == AllocaK) { Val t; if (auto *c = cell(x.st, p.id, p.v, o->getInteger("size").value_or(4))) t = c->v; verTok = t.k == Val::Ent && x.st.ents[t.id].kind == VerK ? t.id : -1; loaded = verTok >= 0 ? Val::E(x.st.ents[verTok].of) : freshV(x, &C); useLoaded = true; verLocal = true; } }
    if (auto kd = o->getBoolean("if_new")) { Val p = arg(x, "obj"); if (!p.isEnt() || (x.st.ents[p.id].kind == HeapK) != *kd) continue; }
    if (o->getBoolean("not_local").value_or(false)) { Val p = arg(x, "obj"); if (p.isEnt() && x.st.ents[p.id].kind == AllocaK) continue; }
    auto argV = [&](StringRef k) -> const Value * { if (auto i = o->getInteger(k)) if (*i < (int64_t)C.arg_size()) return C.getArgOperand(*i); return nullptr; };
    bool hasFlag = o->get("flag") != nullptr; StringRef succ = o->getString("ret").value_or("");
    auto flagCell = [&](X &y, int val) { Val p = arg(y, "flag"); if (p.k == Val::Ent) putCell(y.st, p.id, p.v, 1, Val::I(val)); };
    auto okRet = [&](X &y, bool ok) { if (succ == "true") setRet(y, Val::I(ok)); else if (succ == "false") setRet(y, Val::I(!ok)); else if (succ == "zero") { if (ok) setRet(y, Val::I(0)); else { Val v = freshV(y, &C); y.st.ents[v.id].nz = true; setRet(y, v); } } };
    auto success = [&](X &y) { if (hasFlag && o->getBoolean("assign").value_or(false)) flagCell(y, 0); okRet(y, true); };
    auto failure = [&](X &y) { if (hasFlag) { flagCell(y, 1); fail(y, &C); } else if (o->getBoolean("restart").value_or(false)) fail(y, &C); okRet(y, false); };
    auto needObj = [&](X &y, Val ob) -> int { // object argument of a lock/version primitive
      if (ob.k == Val::Int) { y.dead = true; return -1; } if (!ob.isEnt()) { y.dead = true; return -1; }
      auto &e = y.st.ents[ob.id]; if (getenv("DBGOBJ")) errs() << "obj " << entName(y, ob.id) << " fl " << e.fl << " nz " << e.nz << " leaf " << (int)e.leaf << " kind " << (int)e.kind << " at " << locOf(&C) << "\n";
      if (e.kind != AllocaK) {
      e.fl |= F_NODE;
      if (e.fl & F_FREED) { if (report(y, &C, "use-after-free", "lock operation on a node that was freed")) return -1; }
      if (S.flag("child_checks") && (e.fl & F_CHILD) && !chainHas(&C, S.readFreeFns)) { oblige("child-check", &C);
        if (!e.nz) { if (report(y, &C, "child-null", "child pointer used without a null test on this path (" + entName(y, ob.id) + ")")) return -1; }
        if (S.flag("leaf_tags") && e.leaf != 0) { if (report(y, &C, "child-leaf", "child pointer used as an inner node without a leaf test on this path (" + entName(y, ob.id) + ")")) return -1; } }
      if (S.flag("epoch")) { oblige("epoch-access", &C); if (y.st.epoch <= 0 && !isPrivate(y.st, ob.id) && !(o->getBoolean("parked_ok").value_or(false) && (srcHeld(y, ob.id) || argField(o, C, S.immortal))) && !chainHas(&C, S.readFreeFns)) { if (report(y, &C, "epoch-access", "shared node used outside the epoch-protected section (" + entName(y, ob.id) + ")")) return -1; } }
      }
      if ((e.fl & F_OUTREF) && S.flag("epoch") && !isPrivate(y.st, ob.id) && !chainHas(&C, S.readFreeFns)) { if (report(y, &C, "epoch-access", "node is used through a reference that was read before entering the epoch (" + entName(y, ob.id) + ")")) return -1; }
      if ((hasFlag || o->getBoolean("strict").value_or(false)) && y.st.failed) { oblige("abandon-failed", &C); if (report(y, &C, "continue-after-failure", "operation goes on to use a node after a lock or validation of the same attempt failed at " + locOf(y.st.failSite) + " (the failure flag was never acted on or never cleared)")) return -1; }
      if (hasFlag) oblige("abandon-failed", &C);
      return ob.id; };
    auto tokArg = [&](X &y, Val v, int obj) -> int { // resolve version argument
      const Value *vv = argV("ver"); if (vv && vv->getType()->isPointerTy()) { if (v.k == Val::Ent) { if (auto *c = cell(y.st, v.id, v.v, 8)) v = c->v; else v = freshV(y, &C); } else v = freshV(y, &C); }
      oblige("version-match", &C);
      if (v.k == Val::Int || v.k == Val::Undef) { if (report(y, &C, "wrong-version", std::string("node validated against a value that is not a version read from it (") + (v.k == Val::Int ? "constant " + std::to_string(v.v) : "uninitialised") + ")")) return -2; }
      auto &e = y.st.ents[v.id];
      if (e.kind == Plain) { e.kind = VerK; e.of = obj; e.seq = 0; return v.id; }
      if (e.kind != VerK) { if (report(y, &C, "wrong-version", "node validated against a value that is not a version")) return -2; }
      if (e.of != obj) { if (report(y, &C, "wrong-version", "node " + entName(y, obj) + " validated against the version of another node (" + entName(y, e.of) + ")")) return -2; }
      if ((e.fl & F_VFAILED) && !S.flag("failure_strict")) { if (report(y, &C, "stale-version", "version that already failed validation is used again without being re-read")) return -2; }
      return v.id; };
    auto tooMany = [&](X &y) { int k = 0; for (auto &q : y.st.ents) if ((q.lock || q.shr) && !(q.fl & F_STASH)) k++; return k > (int)S.num("max_locks", 12) && report(y, &C, "lock-leak", "locks accumulate: more and more nodes are locked without being released"); };
    auto doLock = [&](X &y, int id) { if (tooMany(y)) return; slack(y); auto &e = y.st.ents[id]; if (S.flag("no_lock_fresh") && e.kind == HeapK && !isPrivate(y.st, id)) { oblige("exclusive-write", &C); if (report(y, &C, "write-after-publish", "new node is made reachable before its lock is taken, although it is still being filled in (" + entName(y, id) + ")")) return; } if (o->get("ctx")) { Val c = arg(y, "ctx"); oblige("lock-context", &C); for (auto &q : y.st.ents) if (q.lock && c.k == Val::Ent && q.lctx == c) { if (report(y, &C, "lock-context", "queue node already in use for another held lock is used to take a second one")) return; } if (c.k == Val::Ent) e.lctx = c; else e.lctx = Val(); } oblige("lock-acquire", &C); if (e.lock) { if (report(y, &C, "double-lock", "lock acquired twice on one path (first at " + locOf(e.lockSite) + ")")) return; } e.lock = 1; e.lockSite = &C; e.fl &= ~(F_REPL | F_WRITTEN | F_CHILD); if (op != "upgrade") e.fl &= ~F_LIVE; e.leaf = 0; e.nz = true; stats["locks"]++; };

    if (op == "rlock") {
      int id = needObj(x, arg(x, "obj")); if (id < 0) return false;
      if (S.flag("failure_strict")) { auto &e = x.st.ents[id]; int s = e.src; if (x.st.failed) newAttempt(x, &C); else if (e.taint.empty() && (s < 0 || latestTok(x.st, s) < 0 || !x.st.ents[latestTok(x.st, s)].dirty || isFieldIn(strTab[std::max(0, e.fld)], S.handoverFree))) newAttempt(x, &C); }
      { auto &e = x.st.ents[id]; oblige("validated-pointer", &C); if (!e.taint.empty() && !x.st.failed && !o->getBoolean("tainted_ok").value_or(false)) { if (report(x, &C, "unvalidated-pointer", "node pointer that was read optimistically is followed before the node it came from was validated (" + entName(x, id) + ")")) return false; } }
      if (S.flag("stall_check")) { auto &e = x.st.ents[id]; oblige("no-spin-on-obsolete", &C);
        if ((e.fl & F_STALL) && !(e.fld >= 0 && isFieldIn(strTab[e.fld], S.immortal))) { if (report(x, &C, "spin-on-obsolete", "version of the same node is requested again after an earlier attempt failed, without re-reading how the node is reached: a node that became obsolete never becomes readable, so this retries forever (" + entName(x, id) + ")")) return false; } }
      if (!o->getBoolean("total").value_or(false)) fork(x, [&](X &y) { Val v = freshV(y, &C); y.st.ents[v.id].kind = VerK; y.st.ents[v.id].of = id; y.st.ents[v.id].fl |= F_VFAILED; if (S.flag("stall_check")) y.st.ents[id].fl |= F_STALL; setRet(y, v); failure(y); return true; });
      x.st.ents[id].fl &= ~F_STALL;
      x.st.ents[id].nz = true; x.st.ents[id].fl &= ~(F_CHILD | F_LIVE); x.st.ents[id].leaf = 0;
      int v = fresh(x, VerK, &C); int sq = 0; for (auto &e : x.st.ents) if (e.kind == VerK && e.of == id) sq = std::max(sq, e.seq); x.st.ents[v].of = id; x.st.ents[v].seq = sq + 1; if (!o->getBoolean("noret").value_or(false)) { setRet(x, Val::E(v)); retSet = true; } success(x);
      int src = x.st.ents[id].src;
      if (src >= 0 && src != id && (x.st.ents[src].fl & F_NODE) && !x.st.ents[src].lock && !isPrivate(x.st, src) && S.flag("handover", true) && !chainHas(&C, S.handoverExempt) && !(x.st.ents[id].fld >= 0 && isFieldIn(strTab[x.st.ents[id].fld], S.handoverFree))) { int t = latestTok(x.st, src); oblige("handover", &C); if (t < 0 && S.flag("failure_strict")) t = latestTok(x.st, src, true); if (t >= 0) { x.st.ents[t].dirty |= 2; x.st.ents[t].lockSite = &C; } else if (S.flag("failure_strict") && sq > 0 && x.st.ents[id].taint.empty()) {} else { x.st.lost = true; x.st.lostSite = &C; } }
      if (x.st.ents[id].orphan && S.flag("handover", true) && !chainHas(&C, S.handoverExempt) && !(x.st.ents[id].fld >= 0 && isFieldIn(strTab[x.st.ents[id].fld], S.handoverFree))) { oblige("handover", &C); x.st.lost = true; x.st.lostSite = &C; }
      x.st.ents[id].orphan = false;
      if (!S.flag("keep_src")) x.st.ents[id].src = -1;
      if (x.st.ents[id].fld >= 0 && isFieldIn(strTab[x.st.ents[id].fld], S.rootFields)) { oblige("root-recheck", &C); x.st.ents[id].fl |= F_ROOTPEND; }
      if (auto *vv = argV("verout")) { (void)vv; Val p = arg(x, "verout"); if (p.k == Val::Ent) putCell(x.st, p.id, p.v, o->getInteger("vsize").value_or(8), Val::E(v)); }
      return true;
    }
    if (op == "check" || op == "upgrade") {
      int id = needObj(x, arg(x, "obj")); if (id < 0) return false;
      int t = tokArg(x, arg(x, "ver"), id); if (t < 0) return false;
      if (S.flag("failure_strict") && (x.st.ents[t].fl & F_VFAILED)) { fork(x, [&](X &y) { failure(y); return true; }); x.dead = true; return false; } // once outdated, always outdated
      fork(x, [&](X &y) { y.st.ents[t].fl |= F_VFAILED; failure(y); return true; });
      clearTok(x, t); x.st.ents[id].nz = true; if (x.st.ents[t].fl & F_LIVE) x.st.ents[id].fl |= F_LIVE;
      if (op == "upgrade") { doLock(x, id); if (x.dead) return false; const Value *vv = argV("ver"); if (vv && vv->getType()->isPointerTy()) { Val p = arg(x, "ver"); if (p.k == Val::Ent) putCell(x.st, p.id, p.v, 8, freshV(x, &C)); } }
      success(x); retSet = true; continue;
    }
    if (op == "trylock" || op == "lock") {
      int id = needObj(x, arg(x, "obj")); if (id < 0) return false;
      { auto &e = x.st.ents[id]; if (S.flag("optimistic")) { oblige("validated-pointer", &C); if (!e.taint.empty()) { if (report(x, &C, "unvalidated-pointer", "node pointer read optimistically is locked before the node it came from was validated (" + entName(x, id) + ")")) return false; } } }
      if (op == "lock" && !waitOrder(x, id, C)) return false;
      if (op == "trylock") fork(x, [&](X &y) { failure(y); return true; });
      doLock(x, id); if (x.dead) return false; success(x); retSet = true; continue;
    }
    if (op == "unlock" || op == "unlock_obsolete") {
      Val ob = arg(x, "obj"); if (!ob.isEnt()) { x.dead = true; return false; } auto &e = x.st.ents[ob.id]; oblige("lock-release", &C);
      if (isPrivate(x.st, ob.id) && o->getBoolean("fresh_ok").value_or(false)) { e.lock = 0; dropCells(x.st, ob.id); continue; }
      if (!e.lock) { if (report(x, &C, "unlock-not-held", "lock released that this operation does not hold on this path (" + entName(x, ob.id) + ")")) return false; }
      if (o->get("ctx")) { Val c = arg(x, "ctx"); oblige("lock-context", &C); if (c.k == Val::Ent && e.lctx.k == Val::Ent && !(e.lctx == c)) { if (report(x, &C, "lock-context", "lock is released with a different queue node than the one it was taken with (" + entName(x, ob.id) + ")")) return false; } }
      if (S.flag("split_handoff")) { bool pend = false, other = false; for (size_t i = 0; i < x.st.ents.size(); i++) { if (x.st.ents[i].pubu == ob.id) pend = true; if ((int)i != ob.id && x.st.ents[i].lock && x.st.ents[i].kind != AllocaK) other = true; } if (pend) { oblige("split-handoff", &C); if (!other) { if (report(x, &C, "split-handoff", "node is unlocked after a split before the node that must receive the new sibling is locked (" + entName(x, ob.id) + ")")) return false; } } }
      released(x, ob.id); x.st.ents[ob.id].lock = 0; e.lctx = Val(); e.fl |= F_WASLOCKED; if (op == "unlock_obsolete") { if (S.flag("need_unlink")) {} e.fl |= F_OBS; }
      if (S.flag("retired_obsolete_at_exit")) { int k = 0, m = 0; for (auto &q : x.st.ents) if (!q.lock && q.kind != AllocaK) { if ((q.fl & F_OBS) && !(q.fl & (F_RET | F_FREED))) k++; if ((q.fl & F_RET) && !(q.fl & F_OBS)) m++; }
        if (k > 4 && report(x, &C, "obsolete-not-retired", "removed nodes accumulate without being handed to deferred reclamation")) return false;
        if (m > 4 && report(x, &C, "retire-live", "nodes handed to deferred reclamation accumulate without having been marked obsolete")) return false; }
      if (!isPrivate(x.st, ob.id)) dropCells(x.st, ob.id); continue;
    }
    if (op == "rdlock") { int id = needObj(x, arg(x, "obj")); if (id < 0) return false; if (tooMany(x)) return false; if (succ == "" && !hasFlag && !waitOrder(x, id, C)) return false; auto &e = x.st.ents[id]; if (succ != "" || hasFlag) fork(x, [&](X &y) { failure(y); return true; }); x.st.ents[id].shr++; x.st.ents[id].nz = true; x.st.ents[id].lockSite = &C; (void)e; oblige("lock-acquire", &C); success(x); retSet |= succ != ""; if (x.st.ents[id].shr > 3) report(x, &C, "double-lock", "read lock acquired repeatedly"); continue; }
    if (op == "rdunlock") { Val ob = arg(x, "obj"); if (!ob.isEnt()) { x.dead = true; return false; } auto &e = x.st.ents[ob.id]; oblige("lock-release", &C); if (!e.shr) { if (report(x, &C, "unlock-not-held", "read lock released that is not held on this path (" + entName(x, ob.id) + ")")) return false; } if (e.shr) e.shr--; if (e.fl & F_STASH) { e.fl &= ~F_STASH; if (x.st.bag == 1) x.st.bag = 0; } if (e.fl & F_EACH) x.st.bag = -1; if (e.fl & F_BAGEL) for (auto &q : x.st.ents) if (q.fl & F_STASH) { q.fl &= ~F_STASH; q.shr = 0; } if (!e.shr) dropCells(x.st, ob.id); continue; }
    // locks handed to / taken back from a container of nodes
    if (op == "stash") { Val p = arg(x, "obj"); if (p.k == Val::Ent && o->getBoolean("deref").value_or(true)) { if (auto *c = cell(x.st, p.id, p.v, 8)) p = c->v; else p = Val(); } if (p.isEnt()) { auto &e = x.st.ents[p.id]; if (e.shr || e.lock) { e.fl |= F_STASH; x.st.bag = std::min(2, std::max(0, (int)x.st.bag) + 1); } } retSet = true; if (!C.getType()->isVoidTy()) setRet(x, freshV(x, &C)); continue; }
    if (op == "unstash") { bool each = o->getBoolean("each").value_or(false); int slot = fresh(x, AllocaK, &C), n = fresh(x, Plain, &C); x.st.ents[n].nz = true; x.st.ents[n].fl |= F_NODE; x.st.ents[n].fld = intern("stack.element"); int again = -1; if (!each && x.st.backed) { for (size_t i = 0; i < x.st.ents.size(); i++) if ((x.st.ents[i].fl & F_BAGEL) && x.st.ents[i].shr) again = i; if (again >= 0) n = again; else x.st.ents[n].fl |= F_BAGEL; } else if (x.st.bag > 0 || (each && x.st.bag == -1)) { x.st.ents[n].shr = 1; x.st.ents[n].lockSite = &C; x.st.ents[n].fl |= F_BAGEL | (each ? F_EACH : 0); } if (!each && x.st.bag > 0) x.st.backed = true; x.st.ents[slot].anchor = &C; putCell(x.st, slot, 0, 8, Val::E(n)); setRet(x, Val::E(slot)); retSet = true; continue; }
    if (op == "bagpop") { retSet = true; if (x.st.bag > 0) { oblige("lock-release", &C); if (!x.st.backed) { if (report(x, &C, "lock-leak", "an element is taken out of a container of locked nodes without its lock being released")) return false; } } x.st.backed = false; continue; }
    if (op == "bagiter") { setRet(x, x.st.bag > 0 ? Val::I(o->getInteger("more").value_or(1)) : freshV(x, &C)); retSet = true; continue; }
    if (op == "bagempty") { if (x.st.bag != 1) fork(x, [&](X &y) { y.st.bag = 0; for (auto &q : y.st.ents) if (q.fl & F_STASH) { q.fl &= ~F_STASH; q.shr = 0; } setRet(y, Val::I(1)); return true; }); else fork(x, [&](X &y) { bool gone = true; for (auto &q : y.st.ents) if (q.fl & F_STASH) gone = false; if (!gone) return false; y.st.bag = 0; setRet(y, Val::I(1)); return true; }); setRet(x, Val::I(0)); retSet = true; continue; }
    if (op == "retire") {
      Val ob = arg(x, "obj"); if (!ob.isEnt()) { x.dead = true; return false; } auto &e = x.st.ents[ob.id]; oblige("retire", &C);
      if (e.fl & F_RET) { if (report(x, &C, "double-retire", "node handed to deferred reclamation twice on one path")) return false; }
      if (S.flag("retire_obsolete") && !(e.fl & (F_OBS)) && !e.lock) { if (report(x, &C, "retire-live", "node is handed to deferred reclamation without being marked obsolete (" + entName(x, ob.id) + ")")) return false; }
      if (S.flag("retire_unlinked") && !(e.fl & F_REPL)) { if (report(x, &C, "retire-linked", "node is handed to deferred reclamation before the link to it was replaced (" + entName(x, ob.id) + ")")) return false; }
      if (isPrivate(x.st, ob.id)) {}
      e.fl |= F_RET; x.st.retiredAny = true; continue;
    }
    if (op == "free") { Val p = arg(x, "obj"); if (!p.isEnt()) continue; auto &e = x.st.ents[p.id]; oblige("free", &C); if (!isPrivate(x.st, p.id) && (!(e.fl & F_OBS) || o->getBoolean("strict").value_or(false)) && !(EO && EO->getBoolean("may_free").value_or(false)) && S.flag("free_check")) { if (report(x, &C, "free-shared", "a node other operations may still be reading is freed directly (" + entName(x, p.id) + ")")) return false; } if (e.fl & F_FREED) { if (report(x, &C, "double-free", "freed twice")) return false; } e.fl |= F_FREED; e.lock = 0; dropCells(x.st, p.id); continue; }
    if (op == "alloc") { int id = fresh(x, HeapK, &C); if (o->getBoolean("own").value_or(false)) x.st.ents[id].fl |= F_OWN; x.st.ents[id].fl |= o->getBoolean("node").value_or(true) ? F_NODE : 0; stats["allocs"]++; x.st.ents[id].nz = true; x.st.ents[id].leaf = 0;
      if (o->getBoolean("found").value_or(false)) { auto &e = x.st.ents[id]; e.kind = Plain; if (o->getBoolean("locked").value_or(false)) { e.lock = 1; e.lockSite = &C; } e.fl |= F_LIVE; if (auto f = o->getString("as")) e.fld = intern(f->str()); stats["allocs"]--; }
      if (auto *bs = o->getArray("bits")) for (auto &b : *bs) x.st.ents[id].fl |= bitOf(*b.getAsString());
      int64_t foff = o->getInteger("off").value_or(0); if (auto tf = o->getString("into_field")) { auto d = tf->rfind('.'); auto it = FT.t.find(tf->substr(0, d).str()); if (it != FT.t.end()) for (auto &f : it->second) if (f.name == tf->substr(d + 1)) foff = f.off; }
      if (auto in = o->getInteger("into")) { Val p = get(x, C.getArgOperand(*in)); if (p.k == Val::Ent) { if (o->getBoolean("havoc").value_or(false)) { dropCells(x.st, p.id); x.st.ents[p.id].fl |= F_HAVOC; } putCell(x.st, p.id, p.v + foff, 8, Val::E(id)); } if (!C.getType()->isVoidTy()) { setRet(x, freshV(x, &C)); } retSet = true; continue; }
      setRet(x, Val::E(id)); retSet = true; if (o->getBoolean("maybe_null").value_or(false)) fork(x, [&](X &y) { y.st.ents[id].fl &= ~F_OWN; setRet(y, Val::I(0)); return true; }); continue; }
    if (op == "publish") { Val p = arg(x, "obj"); if (p.isEnt()) publish(x, p.id, &C); for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].lock) x.st.ents[i].fl |= F_REPL; continue; }
    if (op == "epoch_enter") { if (x.st.epoch++ == 0) for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i]; if (e.kind == Plain && e.fld >= 0 && (e.fl & F_CHILD || isFieldIn(strTab[e.fld], S.childFields)) && !(e.fl & F_PARAM) && !isFieldIn(strTab[e.fld], S.immortal)) e.fl |= F_OUTREF; } oblige("epoch-enter", &C); if (x.st.epoch > 4) report(x, &C, "epoch-unbalanced", "epoch entered repeatedly without leaving"); continue; }
    if (op == "epoch_exit") { oblige("epoch-exit", &C); if (x.st.epoch <= 0) { if (report(x, &C, "epoch-unbalanced", "epoch left without having been entered")) return false; } if (x.st.epoch > 0) x.st.epoch--; x.st.exitedEpoch = true; continue; }
    if (op == "captest") { Val ob = arg(x, "obj"); Val r = isMark ? ret : Val(); bool fullIs = o->getBoolean("full").value_or(true);
      uint32_t bit = o->getString("bit") ? bitOf(*o->getString("bit")) : F_NOTFULL;
      if (isMark) { if (ob.isEnt() && r.k == Val::Int && (bool)(r.v & 1) != fullIs) x.st.ents[ob.id].fl |= bit; else if (ob.isEnt()) x.st.ents[ob.id].fl &= ~bit; }
      else { fork(x, [&](X &y) { if (auto ab = o->getString("also_full")) if (ob.isEnt()) y.st.ents[ob.id].fl |= bitOf(*ab); setRet(y, Val::I(fullIs)); return true; }); setRet(x, Val::I(!fullIs)); if (ob.isEnt()) x.st.ents[ob.id].fl |= bit; retSet = true; }
      continue; }
    if (op == "need") { Val ob = arg(x, "obj"); uint32_t bit = bitOf(*o->getString("bit")); bool want = o->getBoolean("is").value_or(true); oblige(*o->getString("rule"), &C);
      if (ob.isEnt()) { auto &e = x.st.ents[ob.id]; bool skip = (o->get("if_src_of") && !(arg(x, "if_src_of").isEnt() && x.st.ents[arg(x, "if_src_of").id].src == ob.id)) || (o->getString("if_bit") && !(e.fl & bitOf(*o->getString("if_bit")))) || (o->getBoolean("private_ok").value_or(false) && isPrivate(x.st, ob.id)) || (o->getBoolean("fresh_ok").value_or(false) && (e.kind == HeapK || e.kind == AllocaK)) || (o->getBoolean("param_ok").value_or(false) && (e.fl & F_PARAM)); if (!skip && ((e.fl & bit) != 0) != want) { if (report(x, &C, *o->getString("rule"), o->getString("msg").value_or("required state missing").str() + " (" + entName(x, ob.id) + ")")) return false; } } continue; }
    if (op == "set" || op == "clear") { Val ob = arg(x, "obj"); uint32_t bit = bitOf(*o->getString("bit")); if (ob.isEnt()) { if (auto u = o->getString("unless_has")) if (x.st.ents[ob.id].fl & bitOf(*u)) continue; if (auto u = o->getString("if_has")) if (!(x.st.ents[ob.id].fl & bitOf(*u))) continue; if (o->get("if_src_of")) { Val q = arg(x, "if_src_of"); if (!q.isEnt() || x.st.ents[q.id].src != ob.id) continue; } if (op == "set") x.st.ents[ob.id].fl |= bit; else x.st.ents[ob.id].fl &= ~bit; } continue; }
    // --- values with a meaning (versions) and objects found under them
    if (op == "tagval") { Val ob = arg(x, "of"); Val r = freshV(x, &C); auto &e = x.st.ents[r.id]; if (ob.isEnt()) { int t = o->getInteger("tag").value_or(1); bool held = x.st.ents[ob.id].lock || x.st.ents[ob.id].shr; auto lt = o->getInteger("locked_tag"); if (held && lt) t = *lt; if (o->getBoolean("latest").value_or(false)) for (auto &q : x.st.ents) if (q.tag == t && q.of == ob.id) q.tag = 0; e.tag = t; e.of = ob.id; }
      if (auto b = o->getString("clearall")) for (auto &q : x.st.ents) q.fl &= ~bitOf(*b); setRet(x, r); retSet = true; continue; }
    if (op == "snap") { Val ob = arg(x, "of"); int id = fresh(x, Plain, &C); auto &e = x.st.ents[id]; e.fl |= F_NODE; e.nz = true; e.leaf = 0; e.fld = intern("found"); if (ob.isEnt()) for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].tag == o->getInteger("tag").value_or(1) && x.st.ents[i].of == ob.id) e.of = i; setRet(x, Val::E(id)); retSet = true; continue; }
    if (op == "announce") { Val v = arg(x, "val"); if (auto pb = o->getString("progress")) if (!(v.isEnt() && v.v == 0 && (x.st.ents[v.id].fl & F_U1))) { auto d = pb->split('|'); for (auto &q : x.st.ents) q.fl &= ~(bitOf(d.first) | bitOf(d.second)); }
      if (v.isEnt()) { auto &e = x.st.ents[v.id]; e.fl |= F_U1; if (e.tag == o->getInteger("tag").value_or(1) && e.of >= 0 && v.v == 0) x.st.ents[e.of].fl |= bitOf(*o->getString("bit")); }
      for (auto &q : x.st.ents) if (q.of >= 0 && q.kind == Plain && q.tag == 0 && !(v.isEnt() && q.of == v.id && v.v == 0) && !q.lock && !q.shr && (q.fl & F_NODE) && !(q.fl & bitOf(*o->getString("ok")))) q.fl |= bitOf(*o->getString("stale")); continue; }
    if (op == "need_ver") { Val v = arg(x, "val"); oblige(*o->getString("rule"), &C); bool ok = v.k == Val::Ent && x.st.ents[v.id].tag == o->getInteger("tag").value_or(1) && v.v == o->getInteger("off").value_or(0); if (ok && o->getString("bit")) ok = x.st.ents[v.id].fl & bitOf(*o->getString("bit")); if (!ok) { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str())) return false; } continue; }
    if (op == "covered") { Val ob = arg(x, "obj"); if (ob.isEnt()) { auto &e = x.st.ents[ob.id]; auto b = bitOf(*o->getString("bit")); if (isPrivate(x.st, ob.id)) e.fl |= b; else if (srcHeld(x, ob.id) && e.fld >= 0 && globMatch(*o->getString("field"), strTab[e.fld])) e.fl |= b; else e.fl &= ~b; } continue; }
    if (op == "setall" || op == "clearall" || op == "gnone") { uint32_t w = o->getString("where") ? bitOf(*o->getString("where")) : 0, b = o->getString("bit") ? bitOf(*o->getString("bit")) : 0; Val no = arg(x, "not"); if (op == "gnone") oblige(*o->getString("rule"), &C); for (size_t i = 0; i < x.st.ents.size(); i++) { auto &q = x.st.ents[i]; if ((w && !(q.fl & w)) || (no.isEnt() && no.id == (int)i)) continue; if (auto t = o->getInteger("tag")) if (q.tag != *t) continue; if (op == "setall") q.fl |= b; else if (op == "clearall") q.fl &= ~b; else { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str() + " (" + entName(x, i) + ")")) return false; break; } } continue; }
    if (op == "own") { Val ob = arg(x, "obj"); if (ob.isEnt()) { auto &e = x.st.ents[ob.id]; e.fl |= F_OWN; e.fl &= ~F_PUB; } continue; }
    if (op == "escape") { Val ob = arg(x, "obj"); if (ob.isEnt()) publish(x, ob.id, &C); continue; }
    if (op == "take") { Val r = freshV(x, &C); auto &e = x.st.ents[r.id]; e.nz = true; e.fl |= F_OWN; e.tag = o->getInteger("tag").value_or(0); e.lockSite = &C; setRet(x, r); retSet = true; continue; }
    if (op == "kvread") { Val ob = arg(x, "obj"); Val r = freshV(x, &C); auto &e = x.st.ents[r.id]; e.nz = true; e.tag = o->getInteger("tag").value_or(0); if (ob.isEnt()) { e.src = ob.id; e.fld = intern("element"); } setRet(x, r); retSet = true; continue; }
    if (op == "kvuse") { Val ob = arg(x, "obj"); oblige(*o->getString("rule"), &C); if (ob.isEnt()) { auto &e = x.st.ents[ob.id]; if (e.tag == o->getInteger("tag").value_or(0) && !(e.fl & F_OWN) && !srcHeld(x, ob.id) && !(e.src >= 0 && isPrivate(x.st, e.src))) { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str())) return false; } if (e.fl & F_FREED) { if (report(x, &C, "use-after-free", "item used after it was freed")) return false; } } continue; }
    if (op == "dispose") { Val ob = arg(x, "obj"); oblige("free", &C); if (!ob.isEnt()) continue; auto &e = x.st.ents[ob.id]; if (e.fl & F_FREED) { if (report(x, &C, "double-free", "item is freed twice on one path")) return false; } bool og = false; if (auto *ga = o->getArray("or_g")) { og = !e.lock && !e.shr && e.kind == Plain; for (auto &g : *ga) if (!(x.st.gfl >> *g.getAsInteger() & 1)) og = false; } if (!(e.fl & F_OWN) && !og && !(o->getBoolean("lax").value_or(false) && !(e.fl & F_NODE))) { if (report(x, &C, "free-shared", "item is freed although it is still in the index")) return false; } e.fl |= F_FREED; e.fl &= ~F_OWN; for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].cont == ob.id) x.st.ents[i].fl &= ~F_OWN; continue; }
    if (op == "gset") { x.st.gfl |= 1u << o->getInteger("bit").value_or(0); continue; }
    if (op == "gclear") { x.st.gfl &= ~(1u << o->getInteger("bit").value_or(0)); continue; }
    if (op == "gneed") { if (auto b = o->getString("if_bit")) { Val ob = arg(x, "obj"); if (!ob.isEnt() || !(x.st.ents[ob.id].fl & bitOf(*b))) continue; } bool want = o->getBoolean("is").value_or(true); oblige(*o->getString("rule"), &C); if ((bool)(x.st.gfl >> o->getInteger("bit").value_or(0) & 1) != want) { if (report(x, &C, *o->getString("rule"), o->getString("msg").value_or("required state missing").str())) return false; } continue; }
    if (op == "need_locked") { Val ob = arg(x, "obj"); oblige(o->getString("rule").value_or("unlocked-write"), &C); if (ob.isEnt()) { auto &e = x.st.ents[ob.id]; bool ok = e.lock || isPrivate(x.st, ob.id) || e.kind == AllocaK || (o->getString("or_shared_bit") && e.shr && (e.fl & bitOf(*o->getString("or_shared_bit")))) || (o->getBoolean("shared_ok").value_or(false) && e.shr); if (!ok) { if (report(x, &C, o->getString("rule").value_or("unlocked-write"), name.str() + " is applied to a shared node without holding its lock (" + entName(x, ob.id) + ")")) return false; } } continue; }
    if (op == "tagtest") { Val ob = arg(x, "obj"); 
      if (ob.k == Val::Int) { setRet(x, Val::I(ob.v < 0)); retSet = true; continue; }
      if (!ob.isEnt()) { fork(x, [&](X &y) { setRet(y, Val::I(1)); return true; }); setRet(x, Val::I(0)); retSet = true; continue; }
      auto &e = x.st.ents[ob.id]; if (e.kind == HeapK) { setRet(x, Val::I(0)); retSet = true; continue; }
      if (e.leaf >= 0) { setRet(x, Val::I(e.leaf)); retSet = true; continue; }
      fork(x, [&](X &y) { y.st.ents[ob.id].leaf = 1; y.st.ents[ob.id].nz = true; setRet(y, Val::I(1)); return true; }); x.st.ents[ob.id].leaf = 0; setRet(x, Val::I(0)); retSet = true; continue; }
    if (op == "pure") { Val ob = arg(x, "obj"); int key = 500000 + intern(name); Val b = o->get("arg2") ? arg(x, "arg2") : Val::I(0); Val r; bool hit = false; for (auto &m : x.st.memos) if (m.op == key && m.a == ob && m.b == b) { r = m.r; hit = true; break; }
      if (!hit) { r = freshV(x, &C); if (o->getBoolean("bool").value_or(false)) { x.st.ents[r.id].lo = 0; x.st.ents[r.id].hi = 1; } if (auto h = o->getInteger("hi")) { x.st.ents[r.id].lo = 0; x.st.ents[r.id].hi = *h; } x.st.memos.push_back({key, ob, b, r}); }
      setRet(x, r); retSet = true; continue; }
    if (op == "ident") { setRet(x, arg(x, "obj")); retSet = true; continue; }
    struct FF { std::string &f; FF(std::string &q, StringRef v) : f(q) { f = v.str(); } ~FF() { f.clear(); } } ff(forceField, (op == "read" || op == "write") ? o->getString("field").value_or("?") : StringRef(""));
    if (op == "read") { Val ob = arg(x, "obj"); if (!ob.isEnt()) { x.dead = true; return false; } Val r = freshV(x, &C); x.st.ents[ob.id].fl |= x.st.ents[ob.id].kind == AllocaK ? 0 : F_NODE; onRead(x, C, C.getArgOperand(o->getInteger("obj").value_or(0)), ob, &r); if (x.dead) return false; if (o->getBoolean("child").value_or(false)) { x.st.ents[r.id].fl |= F_CHILD; } if (o->getBoolean("nonnull").value_or(false)) x.st.ents[r.id].nz = true; 
      if (auto so = o->getInteger("sret")) { Val p = get(x, C.getArgOperand(0)); if (p.k == Val::Ent) { dropCells(x.st, p.id); x.st.ents[p.id].fl |= F_HAVOC; putCell(x.st, p.id, p.v + *so, 8, r); } }
      else if (!retSet) { setRet(x, r); retSet = true; } continue; }
    if (op == "write") { Val ob = arg(x, "obj"); if (!ob.isEnt()) { x.dead = true; return false; } x.st.ents[ob.id].fl |= x.st.ents[ob.id].kind == AllocaK ? 0 : F_NODE; Val vv = o->get("val") ? arg(x, "val") : Val(); onWrite(x, C, C.getArgOperand(o->getInteger("obj").value_or(0)), ob, o->get("val") ? &vv : nullptr, o->get("val") ? PointerType::get(C.getContext(), 0) : nullptr); if (x.dead) return false; if (auto *kf = o->getArray("keep")) { auto keepc = [&](const Cell &c) { for (auto &f : *kf) { auto fs = f.getAsString()->str(); auto d = fs.rfind('.'); if (FT.fieldAt(fs.substr(0, d), c.off) == fs) return true; } return false; }; x.st.mem.erase(std::remove_if(x.st.mem.begin(), x.st.mem.end(), [&](Cell &c) { return c.obj == ob.id && !keepc(c); }), x.st.mem.end()); } else dropCells(x.st, ob.id); continue; }
    if (op == "result") { Val r = freshV(x, &C); if (auto lo = o->getInteger("lo")) x.st.ents[r.id].lo = *lo; setRet(x, r); retSet = true; continue; }
    if (op == "dead") { x.dead = true; return false; }
    if (op == "havoc") { havocArgs(x, C); continue; }
    if (op == "assume_nonnull") { Val ob = arg(x, "obj"); if (ob.isEnt()) x.st.ents[ob.id].nz = true; continue; }
    if (op == "livetest") { Val ob = arg(x, "obj"); bool deadIs = o->getBoolean("dead_is").value_or(true); fork(x, [&](X &y) { setRet(y, Val::I(deadIs)); return true; }); setRet(x, Val::I(!deadIs)); retSet = true; if (ob.isEnt()) x.st.ents[ob.id].fl |= F_LIVE; if (verTok >= 0) x.st.ents[verTok].fl |= F_LIVE; continue; }
    if (op == "need_below") { Val ob = arg(x, "obj"); oblige(*o->getString("rule"), &C); if (!ob.isEnt() || x.st.ents[ob.id].kind == AllocaK) continue;
      auto loc = [&](StringRef tf) -> const FieldTable::F * { auto pr = tf.split('.'); auto it = FT.t.find(pr.first.str()); if (it == FT.t.end()) return nullptr; for (auto &f : it->second) if (f.name == pr.second) return &f; return nullptr; };
      auto *cnt = loc(*o->getString("field")), *cp = loc(*o->getString("cap")); if (!cnt || !cp) continue; int64_t cap = cp->size / std::max<int64_t>(1, o->getInteger("elem").value_or(1));
      int64_t hi = POS, lo = NEG; if (Cell *c = cell(x.st, ob.id, cnt->off, cnt->size)) range(x, c->v, lo, hi);
      if (hi >= cap) { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str() + " (" + entName(x, ob.id) + ")")) return false; } continue; }
    if (op == "need_unprotected") { Val ob = arg(x, "obj"); if (ob.isEnt() && isPrivate(x.st, ob.id)) continue; oblige(*o->getString("rule"), &C); if (x.st.epoch > 0) { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str())) return false; } continue; }
    if (op == "nop") continue;
    if (op == "touch") { Val ob = arg(x, "obj"); int id = needObj(x, ob); if (id < 0) return false; auto &e = x.st.ents[id]; oblige("validated-pointer", &C); if (e.kind != AllocaK && !e.taint.empty() && !x.st.failed) { if (report(x, &C, "unvalidated-pointer", "node pointer that was read optimistically is used before the node it came from was validated (" + entName(x, id) + ")")) return false; } continue; }
    if (op == "limit") { Val ob = arg(x, "obj"); if (ob.k == Val::EntU || (ob.k == Val::Ent && (ob.v > o->getInteger("max").value_or(INT32_MAX) || ob.v < o->getInteger("min").value_or(INT32_MIN)))) { x.dead = true; return false; } continue; }
    if (op == "puremem") { Val ob = arg(x, "obj"); int key = 500000 + intern(*o->getString("key")); Val b = Val::I(0), r; bool hit = false; for (auto &m : x.st.memos) if (m.op == key && m.a == ob && m.b == b) { r = m.r; hit = true; break; }
      if (!hit) { r = freshV(x, &C); if (auto h = o->getInteger("hi")) { x.st.ents[r.id].lo = 0; x.st.ents[r.id].hi = *h; } x.st.memos.push_back({key, ob, b, r}); }
      int64_t add = o->getInteger("add").value_or(0); if (r.k == Val::Int) r.v += add; else if (r.isEnt()) r.v += add; Val p = get(x, C.getArgOperand(*o->getInteger("into"))); if (p.k == Val::Ent) putCell(x.st, p.id, p.v + o->getInteger("off").value_or(0), o->getInteger("sz").value_or(8), r); continue; }
    if (op == "storeval") { Val v = arg(x, "obj"); Val p = get(x, C.getArgOperand(*o->getInteger("into"))); if (p.k == Val::Ent) putCell(x.st, p.id, p.v + o->getInteger("off").value_or(0), 8, v); continue; }
    if (op == "needlocal") { Val ob = arg(x, "obj"); oblige(*o->getString("rule"), &C); if (!ob.isEnt() || x.st.ents[ob.id].kind != AllocaK) { if (report(x, &C, *o->getString("rule"), o->getString("msg")->str())) return false; } continue; }
    if (op == "partof") { Val ob = arg(x, "obj"); int id = fresh(x, Plain, &C); x.st.ents[id].nz = true; if (ob.isEnt()) { x.st.ents[id].part = ob.id; x.st.ents[id].fld = intern(o->getString("field").value_or("?")); x.st.ents[ob.id].fl |= F_NODE; } setRet(x, Val::E(id)); retSet = true; continue; }
    if (op == "needleaf") { Val ob = arg(x, "obj"); oblige("child-check", &C); if (ob.isEnt() && x.st.ents[ob.id].leaf != 1) { if (report(x, &C, "child-leaf", "a value is unpacked from a child reference that was not found to be a leaf on this path (" + entName(x, ob.id) + ")")) return false; } continue; }
    if (op == "neednode") { Val ob = arg(x, "obj"); if (ob.k == Val::Int) { x.dead = true; return false; } if (ob.isEnt() && needObj(x, ob) < 0) return false; continue; }
    if (op == "range") { Val r = freshV(x, &C); x.st.ents[r.id].lo = o->getInteger("lo").value_or(0); x.st.ents[r.id].hi = o->getInteger("hi").value_or(1); setRet(x, r); retSet = true; continue; }
    errs() << "unknown op " << op << "\n"; exit(3);
  }
  if (!retSet) setRet(x, freshV(x, &C));
  return true;
}

void Engine::doRet(X &x, const ReturnInst &R) {
  stats["returns"]++;
  auto argList = [&](StringRef k) { std::set<int64_t> r; if (EO) if (auto *a = EO->getArray(k)) for (auto &v : *a) if (auto i = v.getAsInteger()) r.insert(*i); return r; };
  std::set<int> fieldHeld; if (!S.heldFields.empty()) for (auto &c : x.st.mem) if (c.v.isEnt() && (x.st.ents[c.obj].fl & F_PARAM) && x.st.ents[c.obj].kind == HeapK && c.off == (EO ? EO->getInteger("held_off").value_or(-1) : -1) && !(x.st.ents[c.obj].fl & F_FREED)) { auto &e = x.st.ents[c.v.id]; fieldHeld.insert(c.v.id); oblige("lock-at-exit", &R); if (!e.lock && !e.shr && e.kind != AllocaK) { if (report(x, &R, "lock-leak", "operation returns with the iterator pointing to a node whose lock it no longer holds (" + entName(x, c.v.id) + ")")) return; }
      else if (auto *hb = S.root.getArray("held_bits")) for (auto &b : *hb) { auto *w = b.getAsObject(); oblige(*w->getString("rule"), &R); if (!(e.fl & bitOf(*w->getString("bit"))) && e.kind != AllocaK) if (report(x, &R, *w->getString("rule"), w->getString("msg")->str() + " (" + entName(x, c.v.id) + ")")) return; } }
  auto heldOk = argList("exit_locked_args"); bool retLocked = EO && EO->getBoolean("exit_locked_ret").value_or(false);
  if (EO && EO->getBoolean("no_exit_checks").value_or(false)) return;
  bool anyFlagged = !flagAllocas.empty() || S.flag("failure_strict");
  oblige("lock-at-exit", &R);
  for (size_t i = 0; i < x.st.ents.size(); i++) {
    auto &e = x.st.ents[i];
    if (!e.lock && !e.shr) continue; bool ok = false; if (e.fl & (F_STASH | F_EACH)) continue; if (isPrivate(x.st, i) || fieldHeld.count(i)) ok = true;
    for (auto a : heldOk) if ((size_t)a < F->arg_size()) { auto it = x.sc.find(num[F->getArg(a)]); if (it != x.sc.end() && it->second.isEnt() && it->second.id == (int)i) ok = true; }
    if (retLocked && R.getReturnValue()) { Val rv = get(x, R.getReturnValue()); if (rv.isEnt() && rv.id == (int)i) ok = true; }
    if (!ok) { if (report(x, e.lockSite, "lock-leak", "lock taken here is still held when the operation returns at " + locOf(&R) + " (" + entName(x, i) + ")")) return; }
  }
  if (S.flag("own_check")) { oblige("owned-at-exit", &R); for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i]; if (!(e.fl & F_OWN) || (e.fl & F_FREED) || e.cont >= 0) continue; if (EO && EO->getBoolean("exit_owned_ret").value_or(false) && R.getReturnValue()) { Val rv = get(x, R.getReturnValue()); if (rv.isEnt() && rv.id == (int)i) continue; } if (report(x, e.site ? e.site : e.lockSite ? e.lockSite : (const Instruction *)&R, "resource-leak", "object obtained here is neither stored in the index nor freed when the operation returns at " + locOf(&R))) return; } }
  if (auto *ec = S.root.getArray("exit_clear")) for (auto &r : *ec) { auto *o = r.getAsObject(); oblige(*o->getString("rule"), &R); for (size_t i = 0; i < x.st.ents.size(); i++) if (x.st.ents[i].fl & bitOf(*o->getString("bit"))) { if (report(x, &R, *o->getString("rule"), o->getString("msg")->str() + " (" + entName(x, i) + ")")) return; break; } }
  if (x.st.bag > 0) { if (report(x, &R, "lock-leak", "locks of nodes collected in a container are not all released when the operation returns at " + locOf(&R))) return; }
  if (x.st.failed && anyFlagged && !(EO && EO->getBoolean("may_return_failed").value_or(false))) { oblige("abandon-failed", &R); if (report(x, x.st.failSite, "return-after-failure", "operation returns as if it had succeeded although this lock/validation failed and no new attempt was started (return at " + locOf(&R) + ")")) return; }
  if (S.flag("optimistic")) {
    oblige("validated-at-exit", &R);
    if (x.st.lost && !x.st.failed) { if (report(x, x.st.lostSite, "unvalidated-result", "operation returns at " + locOf(&R) + " although what it read under this version was never validated afterwards")) return; }
    for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i];
      if (e.kind == VerK && e.dirty && !x.st.failed) { const Instruction *w = e.lockSite ? e.lockSite : e.site; std::string m = e.dirty & 2 ? "the node this one was reached from is never re-validated after this node's version was taken" : "value read here optimistically is never validated";
        if (report(x, w, e.dirty & 2 && !(e.dirty & 1) ? "handover-unvalidated" : "unvalidated-result", m + " before the operation returns at " + locOf(&R))) return; }
      if (e.fl & F_ROOTPEND) { if (report(x, e.site, "root-not-rechecked", "root pointer is never compared with the current root after the root's version was taken")) return; } }
  }
  if (S.flag("obsolete_retire")) { oblige("obsolete-retired", &R); for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i]; if ((e.fl & F_OBS) && !(e.fl & (F_RET | F_FREED))) { if (report(x, e.site, "obsolete-not-retired", "node marked obsolete but never handed to deferred reclamation before the return at " + locOf(&R) + " (" + entName(x, i) + ")")) return; } } }
  if (S.flag("retired_obsolete_at_exit")) for (size_t i = 0; i < x.st.ents.size(); i++) { auto &e = x.st.ents[i]; if ((e.fl & F_RET) && !(e.fl & F_OBS)) { if (report(x, e.site, "retire-live", "node handed to deferred reclamation but never marked obsolete (" + entName(x, i) + ")")) return; } }
  if (S.flag("epoch")) { int init = EO ? EO->getInteger("epoch").value_or(0) : 0; oblige("epoch-balance", &R);
    if (S.flag("epoch_exact")) { int want = EO ? EO->getInteger("exit_epoch").value_or(init) : init; if (x.st.epoch != want) { if (report(x, &R, x.st.epoch > want ? "epoch-not-left" : "epoch-unbalanced", x.st.epoch > want ? "operation returns still inside its protected section" : "operation returns having left its caller's protected section")) return; } } else
    if (x.st.epoch > init && (x.st.retiredAny || !S.flag("epoch_readonly_ok"))) { if (report(x, &R, "epoch-not-left", x.st.retiredAny ? "operation retires a node but returns without leaving its epoch (nothing is ever reclaimed)" : "operation returns inside its epoch")) return; } }
  if (EO && EO->get("exit_gneed")) { int64_t b = *EO->getInteger("exit_gneed"); bool want = EO->getBoolean("exit_gis").value_or(true); oblige("exit-state", &R); if ((bool)(x.st.gfl >> b & 1) != want) { if (report(x, &R, EO->getString("exit_grule").value_or("exit-state"), EO->getString("exit_gmsg").value_or("operation returns in the wrong state").str())) return; } }
  if (R.getReturnValue() && !(EO && EO->getBoolean("ret_undef_ok").value_or(false))) { oblige("defined-result", &R); Val rv = get(x, R.getReturnValue()); if (rv.k == Val::Undef) { if (report(x, &R, "undefined-result", "operation returns an uninitialised value on this path")) return; } }
}

// ---------------------------------------------------------------- blocks
void Engine::finish(X &x, const BasicBlock *succ, std::vector<std::pair<unsigned, State>> &out) {
  unsigned si = bnum[succ]; State st; st = x.st; st.env.clear();
  if (!cellLive.empty()) { auto &lv = cellLive[si]; st.mem.erase(std::remove_if(st.mem.begin(), st.mem.end(), [&](const Cell &c) { auto &e = st.ents[c.obj]; if (e.kind != AllocaK) return false; auto it = cellOf.find(e.anchor); if (it == cellOf.end()) return false; for (int64_t i = c.off; i < c.off + (int64_t)c.sz; i++) if (i < 0 || i >= (int64_t)it->second.second || lv.test(it->second.first + i)) return false; return true; }), st.mem.end()); }
  std::vector<std::pair<uint32_t, Val>> env;
  for (unsigned v : liveIn[si]) { auto it = x.sc.find(v); if (it != x.sc.end()) env.push_back({v, it->second}); }
  bool hd = headers.count(succ);
  X tmp; tmp.st = std::move(st);
  for (auto &ph : succ->phis()) {
    const Value *iv = ph.getIncomingValueForBlock(x.bb); unsigned b = num[&ph], n = leafCount(ph.getType());
    for (unsigned i = 0; i < n; i++) {
      Val v; 
      if (n == 1) { auto it = num.find(iv); if (it != num.end()) { auto j = x.sc.find(it->second); if (j != x.sc.end()) v = j->second; else { tmp.sc.clear(); v = freshV(tmp, &ph); } } else v = get(tmp, iv); }
      else { if (isa<Constant>(iv)) v = Val(); else { auto j = x.sc.find(num[iv] + i); if (j != x.sc.end()) v = j->second; else v = freshV(tmp, &ph); } }
      if (hd) {
        if (v.k == Val::Int && !ph.getType()->isPointerTy()) { auto &s = widen[{&ph, 0}]; if (s.size() <= W) s.insert(v.v); if (s.size() > W) { bool nn = *s.begin() >= 0; v = freshV(tmp, &ph); if (nn) tmp.st.ents[v.id].lo = 0; } }
        else if (v.k == Val::Ent && v.v != 0) { auto &s = widen[{&ph, 1}]; if (s.size() <= W) s.insert(v.v); if (s.size() > W) { bool nn = !ph.getType()->isPointerTy() && tmp.st.ents[v.id].lo >= 0 && v.v > 0; v = ph.getType()->isPointerTy() ? Val::U(v.id) : freshV(tmp, &ph); if (nn) tmp.st.ents[v.id].lo = 0; } }
      }
      env.push_back({b + i, v});
    }
  }
  if (hd) for (auto &c : tmp.st.mem) {
    const Entity &ce = tmp.st.ents[c.obj]; const void *an = ce.kind == AllocaK ? ce.anchor : ce.kind == HeapK ? (const void *)ce.site : (const void *)succ; int64_t key = 100 + c.off;
    if (c.v.k == Val::Int) { auto &s = widen[{an, key * 2}]; if (s.size() <= W) s.insert(c.v.v); if (s.size() > W) { Val nv = freshV(tmp, nullptr); if (*s.begin() >= 0) tmp.st.ents[nv.id].lo = 0; c.v = nv; } }
    else if (c.v.k == Val::Ent && c.v.v != 0) { auto &s = widen[{an, key * 2 + 1}]; if (s.size() <= W) s.insert(c.v.v); if (s.size() > W) c.v = Val::U(c.v.id); }
  }
  std::sort(env.begin(), env.end(), [](auto &a, auto &b) { return a.first < b.first; });
  tmp.st.env = std::move(env);
  out.push_back({si, std::move(tmp.st)});
}
void Engine::execBlock(unsigned bb, const State &in, std::vector<std::pair<unsigned, State>> &out) {
  const BasicBlock *B = blocks[bb]; X x0; x0.st = in; x0.bb = B; for (auto &p : in.env) x0.sc[p.first] = p.second; x0.st.env.clear();
  x0.it = B->begin(); while (isa<PHINode>(*x0.it)) ++x0.it;
  work.clear(); work.push_back(std::move(x0)); size_t guard = 0;
  while (!work.empty()) {
    if (++guard > 20000) { truncated.insert(entryName + " (block forks)"); break; }
    X x = std::move(work.back()); work.pop_back();
    while (!x.dead) {
      const Instruction &I = *x.it;
      if (!I.isTerminator()) { if (!step(x, I)) break; ++x.it; continue; }
      if (auto *R = dyn_cast<ReturnInst>(&I)) { doRet(x, *R); break; }
      if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isUnconditional()) { finish(x, Br->getSuccessor(0), out); break; }
        Val c = get(x, Br->getCondition());
        if (c.k == Val::Int) { finish(x, Br->getSuccessor(c.v & 1 ? 0 : 1), out); break; }
        X y = x; if (c.k == Val::Undef || refineEq(y, c, 0, true)) finish(y, Br->getSuccessor(1), out);
        if (c.k == Val::Undef || refineEq(x, c, 0, false)) finish(x, Br->getSuccessor(0), out);
        break;
      }
      if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        Val c = get(x, Sw->getCondition()); unsigned bits = Sw->getCondition()->getType()->getIntegerBitWidth();
        if (c.k == Val::Int) { const BasicBlock *d = Sw->getDefaultDest(); for (auto &cs : Sw->cases()) if (cmpI(CmpInst::ICMP_EQ, c.v, cs.getCaseValue()->getSExtValue(), bits)) d = cs.getCaseSuccessor(); finish(x, d, out); break; }
        for (auto &cs : Sw->cases()) { X y = x; int64_t cv = cs.getCaseValue()->getSExtValue(); if (c.k == Val::Undef || refineEq(y, c, cv, true)) finish(y, cs.getCaseSuccessor(), out); }
        bool feas = true; if (c.isEnt()) for (auto &cs : Sw->cases()) { Val cc = get(x, Sw->getCondition()); if (cc.k == Val::Int ? cc.v == cs.getCaseValue()->getSExtValue() : !refineEq(x, cc, cs.getCaseValue()->getSExtValue(), false)) { feas = false; break; } }
        if (feas) finish(x, Sw->getDefaultDest(), out);
        break;
      }
      if (isa<IndirectBrInst>(&I)) { for (auto *s : successors(B)) finish(x, s, out); break; }
      break; // unreachable, resume
    }
  }
}

int Engine::keyFld(int f) { if (f < 0) return -1; if ((int)keyFldC.size() <= f) keyFldC.resize(f + 1, -2); if (keyFldC[f] == -2) keyFldC[f] = (isFieldIn(strTab[f], S.rootFields) || isFieldIn(strTab[f], S.trackFields)) ? f : -1; return keyFldC[f]; }
// garbage-collect, renumber, serialise
std::string Engine::canon(const State &s, State *o) {
  bool orph = S.flag("optimistic") && !S.flag("failure_strict") && !S.flag("keep_src") && !s.failed;
  size_t n = s.ents.size(); std::vector<int> nid(n, -1); std::vector<int> order; 
  auto visit = [&](int root) {
    std::vector<int> stk{root};
    while (!stk.empty()) { int e = stk.back(); stk.pop_back(); if (e < 0 || nid[e] >= 0) continue; nid[e] = order.size(); order.push_back(e);
      auto &x = s.ents[e]; std::vector<int> nx; if (x.kind == VerK) nx.push_back(x.of); if (x.lctx.isEnt()) nx.push_back(x.lctx.id); if (x.cont >= 0) nx.push_back(x.cont); if (x.part >= 0) nx.push_back(x.part); if (x.pubu >= 0) nx.push_back(x.pubu);
      for (auto &c : s.mem) if (c.obj == e && c.v.isEnt()) nx.push_back(c.v.id);
      for (auto it = nx.rbegin(); it != nx.rend(); ++it) stk.push_back(*it); }
  };
  // local variables without content need not be part of the state
  std::vector<char> blank(n, 0); std::vector<int> refs(n, 0);
  for (size_t i = 0; i < n; i++) blank[i] = s.ents[i].kind == AllocaK && !s.ents[i].fl && !s.ents[i].lock && !s.ents[i].shr;
  for (auto &c : s.mem) { blank[c.obj] = 0; if (c.v.isEnt()) blank[c.v.id] = 0; }
  for (auto &p : s.env) if (p.second.isEnt()) refs[p.second.id]++;
  for (auto &r : s.rels) { if (r.a.isEnt()) blank[r.a.id] = 0; if (r.b.isEnt()) blank[r.b.id] = 0; }
  for (auto &m : s.memos) { if (m.a.isEnt()) blank[m.a.id] = 0; if (m.b.isEnt()) blank[m.b.id] = 0; if (m.r.isEnt()) blank[m.r.id] = 0; }
  for (auto &e : s.ents) { for (int q : {e.of, e.src, e.cont, e.part, e.pubu, e.lctx.isEnt() ? e.lctx.id : -1}) if (q >= 0) blank[q] = 0; for (int t : e.taint) blank[t] = 0; }
  auto skipEnv = [&](const std::pair<unsigned, Val> &p) { return p.second.k == Val::Ent && p.second.v == 0 && blank[p.second.id] && refs[p.second.id] == 1 && p.first < vals.size() && vals[p.first] && isa<AllocaInst>(vals[p.first]); };
  for (auto &p : s.env) if (p.second.isEnt() && !skipEnv(p)) visit(p.second.id);
  size_t phase1 = order.size(); std::vector<char> byValue(n, 0); for (size_t i = 0; i < phase1; i++) byValue[order[i]] = 1;
  // Ver entities reached only through taint or as obligations are not re-checkable
  o->epoch = s.epoch; o->failed = s.failed; o->lost = s.lost; o->lostSite = s.lostSite; o->failSite = s.failSite; o->retiredAny = s.retiredAny; o->exitedEpoch = s.exitedEpoch; o->backed = s.backed; o->bag = s.bag; o->gfl = s.gfl;
  std::vector<char> drop(n, 0);
  for (size_t i = 0; i < n; i++) { auto &e = s.ents[i];
    if (nid[i] < 0 && e.kind == VerK && e.dirty) { if (!s.failed) { // is there another live version of the same object with a lower or equal sequence? then a check with it still covers these reads
        bool cov = false; for (size_t j = 0; j < n; j++) if (j != i && nid[j] >= 0 && s.ents[j].kind == VerK && s.ents[j].of == e.of && s.ents[j].seq <= e.seq && !(s.ents[j].fl & F_VFAILED)) cov = true;
        if (cov) { visit(i); continue; }
        if (getenv("DBGLOST")) { errs() << "LOST e" << i << " block " << trail[curNode].first << "\n"; dump(const_cast<State&>(s)); }
        o->lost = true; o->lostSite = e.lockSite ? e.lockSite : e.site; } drop[i] = 1; continue; }
    if (nid[i] >= 0) continue;
    if (((e.lock || e.shr) && !(e.fl & F_STASH)) || (e.kind == HeapK && (e.fl & F_PARAM)) || ((e.fl & F_OWN) && !(e.fl & F_FREED)) || ((e.fl & F_OBS) && !(e.fl & (F_RET | F_FREED))) || (e.fl & F_ROOTPEND) || ((e.fl & F_RET) && !(e.fl & F_OBS) && S.flag("retired_obsolete_at_exit"))) visit(i); }
  // versions named by taints of live entities
  for (size_t k = 0; k < order.size(); k++) for (int t : s.ents[order[k]].taint) if (nid[t] < 0 && !drop[t]) visit(t);
  // memos whose operands live
  std::vector<const Memo *> mm;
  for (auto &m : s.memos) { auto liveV = [&](const Val &v) { return !v.isEnt() || nid[v.id] >= 0; }; if (!liveV(m.a) || !liveV(m.b)) continue; if (m.r.isEnt() && nid[m.r.id] < 0) { auto &e = s.ents[m.r.id]; if (!(e.nz || e.leaf >= 0 || e.lo != NEG || e.hi != POS) || m.op < 500000) { bool ref = e.nz || e.leaf >= 0; if (!ref) continue; } visit(m.r.id); } mm.push_back(&m); }
  auto mapV = [&](Val v) { if (v.isEnt()) v.id = nid[v.id]; return v; };
  o->env.clear(); for (auto &p : s.env) if (!skipEnv(p)) o->env.push_back({p.first, mapV(p.second)});
  o->ents.clear(); for (int e : order) { Entity x = s.ents[e]; if (!x.lock) x.lctx = Val(); if (x.lctx.isEnt()) x.lctx.id = nid[x.lctx.id]; if (x.of >= 0) x.of = nid[x.of]; if (orph && x.src >= 0 && nid[x.src] < 0 && x.kind == Plain && !s.failed && (x.fl & F_CHILD || (x.fld >= 0 && isFieldIn(strTab[x.fld], S.childFields)))) { auto &q = s.ents[x.src]; if ((q.fl & F_NODE) && !q.lock && !isPrivate(s, x.src)) x.orphan = true; } x.src = x.src >= 0 ? nid[x.src] : -1; x.cont = x.cont >= 0 ? nid[x.cont] : -1; x.part = x.part >= 0 ? nid[x.part] : -1; x.pubu = x.pubu >= 0 ? nid[x.pubu] : -1; SmallVector<int32_t, 2> t; if (x.kind == Plain && !(x.lo >= -16 && x.hi <= 512) && !(x.lo == x.hi)) { x.lo = x.lo >= 0 ? 0 : NEG; x.hi = POS; } for (int q : x.taint) if (nid[q] >= 0 && !drop[q]) t.push_back(nid[q]); std::sort(t.begin(), t.end()); x.taint = t; o->ents.push_back(x); }
  // renumber version sequences per object
  for (size_t i = 0; i < o->ents.size(); i++) if (o->ents[i].kind == VerK) { }
  { std::map<int, std::vector<int>> by; for (size_t i = 0; i < o->ents.size(); i++) if (o->ents[i].kind == VerK) by[o->ents[i].of].push_back(i);
    for (auto &kv : by) { auto &v = kv.second; std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return o->ents[a].seq < o->ents[b].seq; }); int k = 0, last = -1, q = 0; for (int i : v) { if (o->ents[i].seq != last) { last = o->ents[i].seq; q = last == 0 ? 0 : ++k; } o->ents[i].seq = q; } } }
  std::map<int, int> cellsOf;
  o->mem.clear(); for (auto &c : s.mem) if (nid[c.obj] >= 0 && (s.ents[c.obj].kind == AllocaK || ++cellsOf[c.obj] <= 16)) o->mem.push_back({nid[c.obj], c.off, c.sz, mapV(c.v)});
  std::sort(o->mem.begin(), o->mem.end(), [](const Cell &p, const Cell &q) { return p.obj != q.obj ? p.obj < q.obj : p.off < q.off; });
  o->rels.clear(); for (auto &r : s.rels) if ((!r.a.isEnt() || nid[r.a.id] >= 0) && (!r.b.isEnt() || nid[r.b.id] >= 0) && (r.a.isEnt() && r.b.isEnt())) o->rels.push_back({r.pred, mapV(r.a), mapV(r.b), r.r});
  auto lv = [](const Val &a) { return std::make_tuple((int)a.k, a.id, a.v); };
  std::sort(o->rels.begin(), o->rels.end(), [&](const Rel &p, const Rel &q) { return std::make_tuple(lv(p.a), lv(p.b), p.pred) < std::make_tuple(lv(q.a), lv(q.b), q.pred); });
  o->rels.erase(std::unique(o->rels.begin(), o->rels.end(), [](const Rel &p, const Rel &q) { return p.pred == q.pred && p.a == q.a && p.b == q.b; }), o->rels.end());
  if (o->rels.size() > 24) o->rels.resize(24);
  o->memos.clear(); for (auto *m : mm) o->memos.push_back({m->op, mapV(m->a), mapV(m->b), mapV(m->r)});
  std::sort(o->memos.begin(), o->memos.end(), [&](const Memo &p, const Memo &q) { return std::make_tuple(p.op, lv(p.a), lv(p.b)) < std::make_tuple(q.op, lv(q.a), lv(q.b)); });
  std::string k; k.reserve(512);
  auto put = [&](int64_t v) { k.append((const char *)&v, 8); }; auto putV = [&](const Val &v) { put(v.k); put(v.id); put(v.v); };
  for (auto &p : o->env) { put(p.first); putV(p.second); } put(-7);
  for (auto &e : o->ents) { put((int64_t)e.tag << 24 | (int64_t)e.orphan << 20 | e.kind | (e.leaf + 1) << 4 | e.nz << 8 | e.lock << 9 | e.dirty << 10 | e.shr << 12); put(e.fl); put(e.of); put(e.seq); put(e.src); put(keyFld(e.fld)); put(e.cont); put(e.part); put(e.pubu); put(e.lo); put(e.hi); put((int64_t)e.anchor); if (e.lctx.isEnt()) putV(e.lctx); for (int t : e.taint) put(t); put(-8); }
  for (auto &c : o->mem) { put(c.obj); put(c.off); put(c.sz); putV(c.v); } put(-9);
  for (auto &r : o->rels) { put(r.pred); putV(r.a); putV(r.b); } put(-10);
  for (auto &m : o->memos) { put(m.op); putV(m.a); putV(m.b); putV(m.r); }
  put(o->epoch | o->failed << 8 | o->lost << 9 | o->retiredAny << 10 | (o->bag + 1) << 12 | o->backed << 16); put(o->gfl);
  return k;
}

// Abstraction applied where a block has accumulated many states: forget facts about plain data
// (equalities, orderings and ranges of integers that are not versions, pointers or node state).
void Engine::coarsen(State &s) {
  size_t n = s.ents.size(); std::vector<char> keep(n, 0);
  { // a chain of private containers nobody refers to any more is as good as its two ends
    std::vector<char> ref(n, 0); bool any = false; for (auto &e : s.ents) any |= e.cont >= 0 && s.ents[e.cont].cont >= 0;
    if (any) { for (auto &p : s.env) if (p.second.isEnt()) ref[p.second.id] = 1; for (auto &c : s.mem) if (c.v.isEnt()) ref[c.v.id] = 1;
      for (auto &e : s.ents) if (e.cont >= 0) { auto pass = [&](int c) { auto &q = s.ents[c]; return !ref[c] && q.kind == HeapK && q.cont >= 0 && !q.lock && !q.shr && !(q.fl & (F_OWN | F_OBS | F_RET | F_PARAM)); };
        while (pass(e.cont)) e.cont = s.ents[e.cont].cont; } } }
  auto rel = [&](int i) { auto &e = s.ents[i]; return e.kind != Plain || e.lock || e.shr || (e.fl & (F_OBS | F_RET | F_FREED | F_ROOTPEND | F_NODE | F_CHILD | F_U1 | F_U2 | F_U3 | F_U4 | F_U5 | F_U6 | F_U7 | F_U8 | F_U9 | F_U10 | F_U11 | F_OWN | F_NOTFULL)) || e.tag || (leafMask && e.leaf >= 0); };
  for (size_t i = 0; i < n; i++) { if (rel(i)) keep[i] = 1; if (s.ents[i].kind == VerK && s.ents[i].of >= 0) keep[s.ents[i].of] = 1; if (s.ents[i].cont >= 0) keep[s.ents[i].cont] = keep[i] = 1; if (s.ents[i].part >= 0) keep[s.ents[i].part] = keep[i] = 1; if (s.ents[i].pubu >= 0) keep[s.ents[i].pubu] = keep[i] = 1; if (s.ents[i].lctx.isEnt()) keep[s.ents[i].lctx.id] = 1; }
  for (auto &p : s.env) if (p.second.isEnt() && p.first < vals.size() && vals[p.first]->getType()->isPointerTy()) keep[p.second.id] = 1;
  for (auto &m : s.memos) if (m.op >= 500000) { if (m.a.isEnt() && !keep[m.a.id]) continue; if (m.r.isEnt()) keep[m.r.id] = 1; if (m.b.isEnt()) keep[m.b.id] = 1; }
  auto nv = [&](const Val &v) { Entity e; e.fl = v.isEnt() ? s.ents[v.id].fl & F_PARAM : 0; if (v.k == Val::Ent && v.v >= 0 && s.ents[v.id].lo >= 0 && s.ents[v.id].lo != POS) e.lo = 0; s.ents.push_back(e); return Val::E(s.ents.size() - 1); };
  auto K = [&](const Val &v) { return !v.isEnt() || (v.id < (int)n && keep[v.id]); };
  for (auto &p : s.env) { if (p.first >= vals.size()) continue;
    if (p.second.k == Val::Undef) { if (!retFlow.count(vals[p.first])) p.second = nv(p.second); continue; }
    if (!K(p.second)) p.second = nv(p.second); }
  s.mem.erase(std::remove_if(s.mem.begin(), s.mem.end(), [&](const Cell &c) { return c.obj < (int)n && s.ents[c.obj].kind != AllocaK && !K(c.v); }), s.mem.end());
  for (auto &c : s.mem) { if (c.v.k == Val::Undef) { c.v = nv(c.v); continue; } if (!K(c.v)) c.v = nv(c.v); }
  s.rels.erase(std::remove_if(s.rels.begin(), s.rels.end(), [&](Rel &r) { return !K(r.a) || !K(r.b); }), s.rels.end());
  s.memos.erase(std::remove_if(s.memos.begin(), s.memos.end(), [&](Memo &m) { return m.op < 500000 || !K(m.a) || !K(m.b) || !K(m.r); }), s.memos.end());
  for (size_t i = 0; i < n; i++) if (s.ents[i].kind == Plain) { auto &e = s.ents[i]; bool inMemo = false; for (auto &m : s.memos) if (m.r.isEnt() && m.r.id == (int)i) inMemo = true; if (!inMemo) { e.lo = NEG; e.hi = POS; } if (s.failed) { e.taint.clear(); e.src = -1; } }
}
void Engine::dump(const State &o) {
  auto pv = [&](const Val &v) { std::string s; if (v.k == Val::Int) s = std::to_string(v.v); else if (v.k == Val::Undef) s = "undef"; else s = (v.k == Val::EntU ? "u" : "e") + std::to_string(v.id) + (v.v ? "+" + std::to_string(v.v) : ""); return s; };
  errs() << "STATE ep" << o.epoch << " f" << o.failed << " l" << o.lost << " | ";
  for (auto &p : o.env) { errs() << (vals.size() > p.first ? vals[p.first]->getName() : "?") << "#" << p.first << "=" << pv(p.second) << " "; }
  errs() << "\n   "; int i = 0; for (auto &e : o.ents) { errs() << "e" << i++ << "{k" << (int)e.kind << " fl" << Twine::utohexstr(e.fl) << (e.nz ? " nz" : "") << (e.lock ? " LK" : "") << " lf" << (int)e.leaf << " d" << (int)e.dirty << " of" << e.of << "." << e.seq << " src" << e.src << " " << (e.fld >= 0 ? strTab[e.fld] : ""); if (e.lo != NEG || e.hi != POS) errs() << "[" << e.lo << "," << e.hi << "]"; for (int t : e.taint) errs() << " t" << t; errs() << "} "; }
  errs() << "\n   mem "; for (auto &c : o.mem) errs() << "e" << c.obj << "@" << c.off << "=" << pv(c.v) << " ";
  errs() << " rel "; for (auto &r : o.rels) errs() << r.pred << ":" << pv(r.a) << "," << pv(r.b) << " "; errs() << " memo "; for (auto &m : o.memos) errs() << m.op << "(" << pv(m.a) << "," << pv(m.b) << ")=" << pv(m.r) << " "; errs() << "\n";
}
void Engine::runEntry(Function &Fn, const json::Object &E) {
  F = &Fn; EO = &E; entryName = P.nameOf(&Fn); if (auto s = E.getString("name")) entryName = s->str();
  W = S.num("widen", 2); if (auto w = E.getInteger("widen")) W = *w;
  number(); computeLive(); computeCellLive(); if (getenv("DBGIR")) Fn.print(errs()); trail.clear();
  stats["entries"]++; stats["blocks"] += blocks.size(); size_t insts = 0; for (auto *b : blocks) insts += b->size(); stats["instructions"] += insts;
  std::vector<std::unordered_set<uint64_t>> seen(blocks.size());
  auto cmp = [](const QN &a, const QN &b) { return a.bb > b.bb; }; (void)cmp;
  // worklist ordered by block number: states meet before loops are re-entered
  std::map<unsigned, std::deque<QN>> q;
  X x; x.st = State(); x.bb = blocks[0];
  auto idx = [&](StringRef k) { std::set<int64_t> r; if (auto *a = E.getArray(k)) for (auto &v : *a) if (auto i = v.getAsInteger()) r.insert(*i); return r; };
  auto locked = idx("locked"), nodes = idx("nodes"), rdl = idx("rdlocked"), rv = idx("versioned"), privp = idx("private_params"); auto nonnull = !E.getBoolean("args_maybe_null").value_or(false); auto mayNull = idx("may_null");
  int ai = 0;
  for (auto &A : Fn.args()) { int id = fresh(x, Plain, nullptr); auto &e = x.st.ents[id]; e.fl |= F_PARAM; if (A.getType()->isPointerTy() && nonnull && !mayNull.count(ai)) e.nz = true; if (A.getType()->isIntegerTy(1)) { e.lo = 0; e.hi = 1; }
    if (locked.count(ai)) { e.lock = 1; e.fl |= F_NODE; } if (rdl.count(ai)) { e.shr = 1; e.fl |= F_NODE; } if (privp.count(ai)) { e.kind = HeapK; e.nz = true; } if (nodes.count(ai)) { e.fl |= F_NODE; e.leaf = 0; }
    x.st.env.push_back({num[&A], Val::E(id)}); 
    if (A.hasStructRetAttr()) { e.kind = AllocaK; e.fl |= F_HAVOC; e.anchor = &A; }
    ai++; }
  if (auto *r = E.getArray("reached")) { // [child, parent, version of parent]: how the caller got to the node it passes
    auto at = [&](size_t i) { return (unsigned)(*r)[i].getAsInteger().value_or(0); }; unsigned c = at(0), p = at(1), v = at(2);
    if (Fn.arg_size() > std::max({c, p, v}) && Fn.getArg(c)->getType()->isPointerTy() && Fn.getArg(p)->getType()->isPointerTy() && Fn.getArg(v)->getType()->isIntegerTy()) {
      x.st.ents[p].fl |= F_NODE; x.st.ents[c].src = p; x.st.ents[v].kind = VerK; x.st.ents[v].of = p; x.st.ents[v].seq = 1; } }
  for (auto ai2 : rv) { int v = fresh(x, VerK, nullptr); x.st.ents[v].of = (int)ai2; x.st.ents[v].seq = 1; x.st.env.push_back({0x7ffffff0u, Val::E(v)}); }
  x.st.epoch = E.getInteger("epoch").value_or(0); if (auto g = E.getInteger("gfl")) x.st.gfl = *g;
  size_t coarseAt = S.num("coarse_at", 400); if (auto c = E.getInteger("coarse_at")) coarseAt = *c;
  size_t cap = S.num("cap", 600000), total = 0; size_t perBlock = S.num("block_cap", 100000);
  auto enqueue = [&](unsigned bb, const State &st, int parent) {
    State o; std::string k;
    size_t have = seen[bb].size();
    if (have >= (st.failed ? coarseAt / 8 : coarseAt)) { State c = st; coarsen(c); k = canon(c, &o); stats["coarsened"]++; } else k = canon(st, &o);
    if (seen[bb].size() >= perBlock) { truncated.insert(entryName); return; }
    if (!seen[bb].insert(xxHash64(k)).second) return;
    if (++total > cap) { truncated.insert(entryName); return; }
    if (getenv("DBGBB") && (int)bb == atoi(getenv("DBGBB")) && seen[bb].size() > (getenv("DBGFROM") ? (size_t)atoi(getenv("DBGFROM")) : 1500) && seen[bb].size() < 1000 + (getenv("DBGFROM") ? (size_t)atoi(getenv("DBGFROM")) : 1500)) dump(o);
    q[bb].push_back({bb, parent, std::move(o)});
  };
  enqueue(0, x.st, -1);
  while (!q.empty()) {
    auto it = q.begin(); QN n = std::move(it->second.front()); it->second.pop_front(); if (it->second.empty()) q.erase(it);
    trail.push_back({n.bb, n.parent}); curNode = trail.size() - 1; int me = curNode;
    std::vector<std::pair<unsigned, State>> out; execBlock(n.bb, n.st, out);
    for (auto &p : out) enqueue(p.first, p.second, me);
  }
  if (getenv("DBGTOP")) { std::vector<std::pair<size_t, unsigned>> v; for (unsigned i = 0; i < blocks.size(); i++) v.push_back({seen[i].size(), i}); std::sort(v.rbegin(), v.rend()); for (int i = 0; i < 12 && i < (int)v.size(); i++) errs() << "  block " << v[i].second << " " << blocks[v[i].second]->getName() << " states " << v[i].first << " " << locOf(blocks[v[i].second]->getTerminator()) << "\n"; }
  stats["states"] += total; stats["states." + entryName] += total;
}
