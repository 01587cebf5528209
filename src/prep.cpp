#include "prep.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Scalar/SROA.h"

bool globMatch(StringRef p, StringRef s) {
  size_t star = p.find('*');
  if (star == StringRef::npos) return p == s;
  StringRef pre = p.substr(0, star), rest = p.substr(star + 1);
  if (!s.starts_with(pre)) return false;
  s = s.substr(pre.size());
  if (rest.empty()) return true;
  for (size_t i = 0; i <= s.size(); i++)
    if (globMatch(rest, s.substr(i))) return true;
  return false;
}

static void replAll(std::string &s, const std::string &a, const std::string &b) {
  size_t p = 0;
  while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); }
}

std::string normName(StringRef m) {
  if (!m.starts_with("_Z")) {
    // strip clang's local suffixes (.123)
    return m.split('.').first.str();
  }
  std::string d = llvm::demangle(m.str());
  replAll(d, "(anonymous namespace)::", "");
  replAll(d, "operator()", "operatorCALL");
  replAll(d, "operator<<=", "operatorSHLEQ"); replAll(d, "operator>>=", "operatorSHREQ");
  replAll(d, "operator<=>", "operatorCMP3");
  replAll(d, "operator<<", "operatorSHL"); replAll(d, "operator>>", "operatorSHR");
  replAll(d, "operator<=", "operatorLE"); replAll(d, "operator>=", "operatorGE");
  replAll(d, "operator->", "operatorARROW");
  replAll(d, "operator<", "operatorLT"); replAll(d, "operator>", "operatorGT");
  replAll(d, "operator new[]", "operator_new_arr"); replAll(d, "operator delete[]", "operator_delete_arr");
  replAll(d, "operator new", "operator_new"); replAll(d, "operator delete", "operator_delete");
  replAll(d, "[abi:cxx11]", "");
  std::string o; int ang = 0, par = 0;
  for (size_t i = 0; i < d.size(); i++) {
    char c = d[i];
    if (c == '<') { ang++; continue; }
    if (c == '>') { if (ang) ang--; continue; }
    if (ang) continue;
    if (c == '(') { par++; continue; }
    if (c == ')') { par--; continue; }
    if (par) continue;
    o += c;
  }
  // conversions "operator T"
  size_t op = o.find("operator ");
  if (op != std::string::npos) { std::string t = o.substr(op + 9); replAll(t, " ", "_"); o = o.substr(0, op) + "operator_" + t; }
  // trailing qualifiers
  for (bool ch = true; ch;) {
    ch = false;
    for (const char *q : {" const", " volatile", " &", " &&"}) {
      StringRef sr(o);
      if (sr.ends_with(q)) { o.resize(o.size() - strlen(q)); ch = true; }
    }
    size_t cl = o.find(" [clone");
    if (cl != std::string::npos) { o.resize(cl); ch = true; }
  }
  replAll(o, " const::", "::");
  size_t sp = o.rfind(' ');
  if (sp != std::string::npos) o = o.substr(sp + 1);
  return o;
}

std::string normType(StringRef n) {
  if (n.starts_with("class.")) n = n.drop_front(6);
  else if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  // strip .123 and .base suffixes
  while (true) {
    auto p = n.rfind('.');
    if (p == StringRef::npos) break;
    StringRef suf = n.substr(p + 1);
    if (suf == "base" || (!suf.empty() && suf.find_first_not_of("0123456789") == StringRef::npos)) n = n.substr(0, p);
    else break;
  }
  std::string s = n.str(), o; int a = 0;
  for (char c : s) { if (c == '<') a++; else if (c == '>') { if (a) a--; } else if (!a) o += c; }
  replAll(o, "(anonymous namespace)::", "");
  return o;
}

std::string diTypeName(const DICompositeType *C) {
  std::string n = C->getName().str();
  for (const DIScope *s = C->getScope(); s; s = s->getScope()) {
    if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
      if (!s->getName().empty()) n = s->getName().str() + "::" + n;
    } else if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
    else if (auto *sp = dyn_cast<DISubprogram>(s)) { (void)sp; }
  }
  return normType(n);
}

static void addFields(const DICompositeType *C, uint64_t base, std::vector<FieldTable::F> &out, int depth = 0) {
  if (depth > 8) return;
  for (auto *e : C->getElements()) {
    auto *d = dyn_cast_or_null<DIDerivedType>(e);
    if (!d) continue;
    if (d->getTag() == dwarf::DW_TAG_inheritance) {
      const DIType *bt = d->getBaseType();
      while (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) bt = dd->getBaseType();
      if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) addFields(bc, base + d->getOffsetInBits() / 8, out, depth + 1);
      continue;
    }
    if (d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue;
    uint64_t off = base + d->getOffsetInBits() / 8;
    std::string nm = d->getName().str();
    if (nm.empty()) { // anonymous union / struct
      const DIType *bt = d->getBaseType();
      while (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) bt = dd->getBaseType();
      if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) { addFields(bc, off, out, depth + 1); continue; }
    }
    uint64_t sz = d->getSizeInBits() / 8;
    std::string sub; { const DIType *bt = d->getBaseType(); while (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) { if (dd->getTag() != dwarf::DW_TAG_typedef && dd->getTag() != dwarf::DW_TAG_const_type && dd->getTag() != dwarf::DW_TAG_volatile_type) break; bt = dd->getBaseType(); }
      if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) if (bc->getTag() != dwarf::DW_TAG_enumeration_type && bc->getTag() != dwarf::DW_TAG_array_type) sub = diTypeName(bc); }
    out.push_back({off, sz ? sz : 1, nm, sub});
  }
}

void FieldTable::build(Module &M) {
  DebugInfoFinder DF; DF.processModule(M);
  for (auto *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() == dwarf::DW_TAG_enumeration_type || C->getTag() == dwarf::DW_TAG_array_type) continue;
    if (C->isForwardDecl() || C->getElements().empty()) continue;
    std::string n = diTypeName(C);
    if (n.empty() || t.count(n)) continue;
    std::vector<F> f; addFields(C, 0, f);
    t[n] = f;
  }
}

std::string FieldTable::fieldAt(const std::string &ty, uint64_t off) const {
  auto i = t.find(ty);
  if (i == t.end()) return ty + ".?";
  const F *best = nullptr;
  for (auto &f : i->second)
    if (off >= f.off && off < f.off + f.size && (!best || f.off >= best->off)) best = &f;
  if (!best) return ty + ".?";
  return ty + "." + best->name;
}

std::string FieldTable::innerAt(const std::string &ty0, uint64_t off) const {
  std::string ty = ty0;
  for (int d = 0; d < 8; d++) {
    auto i = t.find(ty); if (i == t.end()) break;
    const F *best = nullptr;
    for (auto &f : i->second) if (off >= f.off && off < f.off + f.size && (!best || f.off >= best->off)) best = &f;
    if (!best || best->sub.empty()) break;
    off -= best->off; ty = best->sub;
  }
  return fieldAt(ty, off);
}

AccessDesc describe(Value *p, const DataLayout &DL) {
  AccessDesc d; int64_t acc = 0; bool known = true;
  for (int depth = 0; depth < 12; depth++) {
    if (auto *G = dyn_cast<GEPOperator>(p)) {
      Type *T = G->getSourceElementType();
      // offset inside the source element, ignoring first index
      int64_t off = 0; bool k = true;
      Type *cur = T; bool first = true; int64_t firstOff = 0; bool firstKnown = true;
      bool innerVar = false;
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
        Value *ix = it->get();
        if (first) {
          first = false;
          if (auto *c = dyn_cast<ConstantInt>(ix)) firstOff = c->getSExtValue() * (int64_t)DL.getTypeAllocSize(T).getFixedValue();
          else firstKnown = false;
          continue;
        }
        if (auto *ST = dyn_cast<StructType>(cur)) {
          unsigned n = cast<ConstantInt>(ix)->getZExtValue();
          off += DL.getStructLayout(ST)->getElementOffset(n);
          cur = ST->getElementType(n);
        } else if (auto *AT = dyn_cast<ArrayType>(cur)) {
          cur = AT->getElementType();
          if (auto *c = dyn_cast<ConstantInt>(ix)) off += c->getSExtValue() * (int64_t)DL.getTypeAllocSize(cur).getFixedValue();
          else innerVar = true; // stays inside the array field: keep the field's start offset
        } else { k = false; break; }
      }
      (void)innerVar;
      if (auto *ST = dyn_cast<StructType>(T)) {
        if (ST->hasName()) d.types.push_back({normType(ST->getName()), k ? off : -1});
        (void)known; (void)acc;
      }
      p = G->getPointerOperand();
      (void)firstOff; (void)firstKnown;
      continue;
    }
    if (auto *B = dyn_cast<BitCastOperator>(p)) { p = B->getOperand(0); continue; }
    break;
  }
  return d;
}

static void strs(const json::Object &o, StringRef k, std::vector<std::string> &v) {
  if (auto *a = o.getArray(k)) for (auto &e : *a) if (auto s = e.getAsString()) v.push_back(s->str());
}

bool Spec::load(StringRef path, std::string &err) {
  auto buf = MemoryBuffer::getFile(path);
  if (!buf) { err = "cannot read " + path.str(); return false; }
  auto j = json::parse((*buf)->getBuffer());
  if (!j) { err = "bad json " + path.str() + ": " + toString(j.takeError()); return false; }
  root = std::move(*j->getAsObject());
  strs(root, "nodes", nodes); strs(root, "lockword", lockword); strs(root, "read_free", readFree);
  strs(root, "write_free", writeFree); strs(root, "opaque", opaque); strs(root, "dead", dead);
  strs(root, "inline", inlineExtra); strs(root, "handover_exempt", handoverExempt);
  strs(root, "root_fields", rootFields); strs(root, "track_fields", trackFields); strs(root, "noise_fields", noise); strs(root, "forget_fields", forget); strs(root, "immortal_fields", immortal); strs(root, "part_fields", partFields); strs(root, "wait_down", waitDown); strs(root, "wait_forbid", waitForbid); strs(root, "wait_ok", waitOk); strs(root, "held_fields", heldFields); strs(root, "live_fields", liveFields); strs(root, "live_exempt", liveExempt); strs(root, "handover_free", handoverFree); strs(root, "read_free_fns", readFreeFns); strs(root, "child_fields", childFields);
  auto ops = [](const json::Value &v) { json::Array a; if (auto *x = v.getAsArray()) a = *x; else a.push_back(v); return a; };
  if (auto *p = root.getObject("prims")) for (auto &kv : *p) prims[kv.first] = ops(kv.second);
  if (auto *p = root.getObject("enter")) for (auto &kv : *p) enterMarks[kv.first] = ops(kv.second);
  if (auto *p = root.getObject("exit")) for (auto &kv : *p) exitMarks[kv.first] = ops(kv.second);
  return true;
}

const std::string &Prep::nameOf(const Function *F) {
  auto it = names.find(F);
  if (it != names.end()) return it->second;
  std::string n = normName(F->getName());
  return names[F] = n;
}

static bool stdInlinable(StringRef n) {
  static const char *ok[] = {"std::atomic*", "std::__atomic*", "std::move", "std::forward", "std::get", "std::tuple*", "std::_Tuple*", "std::_Head_base*",
    "std::__get_helper*", "std::pair*", "std::make_pair", "std::make_tuple", "std::tie", "std::array*", "std::__array*", "std::min", "std::max", "std::swap",
    "std::addressof", "std::__addressof", "std::__and_*", "std::__or_*", "std::operator&", "std::operator|", "std::operator==", "std::operatorCMP3", "std::__find*", "std::exchange", "std::__exchange",
    "std::forward_as_tuple", "std::__tuple*", "std::unique_ptr*", "std::__uniq_ptr*", "std::default_delete*", "std::optional*", "std::_Optional*", "std::copy", "std::fill", "std::__memory_order*",
    "std::__swappable*","std::__cmp_cat*","std::__is_constant_evaluated", "std::numeric_limits*", "std::lock_guard*", "std::integral_constant*", "std::memory_order*", "std::atomic_thread_fence", "std::less*", "std::greater*"};
  for (auto *o : ok) if (globMatch(o, n)) return true;
  return false;
}

static void lowerInvokes(Function &F) {
  SmallVector<InvokeInst *, 32> inv;
  for (auto &I : instructions(F)) if (auto *II = dyn_cast<InvokeInst>(&I)) inv.push_back(II);
  for (auto *II : inv) {
    SmallVector<Value *, 8> args(II->args());
    auto *CI = CallInst::Create(II->getFunctionType(), II->getCalledOperand(), args, "", II);
    CI->takeName(II); CI->setCallingConv(II->getCallingConv()); CI->setAttributes(II->getAttributes()); CI->setDebugLoc(II->getDebugLoc());
    II->replaceAllUsesWith(CI);
    BranchInst::Create(II->getNormalDest(), II)->setDebugLoc(CI->getDebugLoc());
    II->getUnwindDest()->removePredecessor(II->getParent());
    II->eraseFromParent();
  }
  if (!inv.empty()) removeUnreachableBlocks(F);
}

static FunctionCallee undefMarker(Module &M, Type *T) {
  std::string n = "__undef."; raw_string_ostream os(n); T->print(os); os.flush();
  return M.getOrInsertFunction(n, FunctionType::get(T, false));
}

void Prep::run() {
  if (auto *pg = S.root.getObject("prim_globs")) for (auto &kv : *pg) for (auto &F : M) { const std::string &n = nameOf(&F); if (S.prims.count(n) || S.enterMarks.count(n) || S.exitMarks.count(n) || !globMatch(kv.first.str(), n)) continue; S.prims[n] = *kv.second.getAsArray(); }
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    lowerInvokes(F);
    F.setPersonalityFn(nullptr);
    // a local of the function's result type starts out as an explicit "undefined" value, so that promotion does not fold it away
    Type *RT = F.getReturnType();
    if (RT->isIntegerTy() || RT->isPointerTy()) {
      SmallVector<AllocaInst *, 8> as;
      Type *RT1 = RT->isIntegerTy(1) ? Type::getInt8Ty(M.getContext()) : RT;
      for (auto &I : F.getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I)) if (!A->isArrayAllocation() && A->getAllocatedType() == RT1) as.push_back(A);
      for (auto *A : as) {
        auto UF = undefMarker(M, RT1);
        auto *ip = A->getNextNode(); while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
        auto *C = CallInst::Create(UF, "undef", ip); C->setDebugLoc(ip->getDebugLoc()); if (!C->getDebugLoc() && F.getSubprogram()) C->setDebugLoc(DILocation::get(M.getContext(), F.getSubprogram()->getLine(), 0, F.getSubprogram()));
        new StoreInst(C, A, ip);
      }
    }
  }
  // recursion: SCCs
  std::set<const Function *> rec;
  {
    CallGraph CG(M);
    // self edges and multi-node SCCs via Tarjan on defined functions
    std::map<const Function *, std::vector<const Function *>> adj;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = CB->getCalledFunction()) if (!c->isDeclaration()) {
        const std::string &n = nameOf(c);
        if (S.prims.count(n)) continue;
        adj[&F].push_back(c);
      }
    }
    std::map<const Function *, int> idx, low; std::vector<const Function *> st; std::set<const Function *> on; int ctr = 0;
    struct Fr { const Function *f; size_t i; };
    for (auto &F0 : M) {
      if (F0.isDeclaration() || idx.count(&F0)) continue;
      std::vector<Fr> s{{&F0, 0}}; idx[&F0] = low[&F0] = ctr++; st.push_back(&F0); on.insert(&F0);
      while (!s.empty()) {
        auto &fr = s.back(); auto &a = adj[fr.f];
        if (fr.i < a.size()) {
          auto *c = a[fr.i++];
          if (!idx.count(c)) { idx[c] = low[c] = ctr++; st.push_back(c); on.insert(c); s.push_back({c, 0}); }
          else if (on.count(c)) low[fr.f] = std::min(low[fr.f], idx[c]);
        } else {
          auto *f = fr.f; s.pop_back();
          if (!s.empty()) low[s.back().f] = std::min(low[s.back().f], low[f]);
          if (low[f] == idx[f]) {
            std::vector<const Function *> comp; const Function *x;
            do { x = st.back(); st.pop_back(); on.erase(x); comp.push_back(x); } while (x != f);
            bool self = std::find(adj[f].begin(), adj[f].end(), f) != adj[f].end();
            if (comp.size() > 1 || self) for (auto *y : comp) rec.insert(y);
          }
        }
      }
    }
  }
  for (auto &F : M) {
    const std::string &n = nameOf(&F);
    if (S.prims.count(n)) { klass[&F] = 1; matchedPrims.insert(n); continue; }
    if (F.isDeclaration()) { klass[&F] = 2; continue; }
    bool op = false;
    for (auto &o : S.opaque) if (globMatch(o, n)) op = true;
    bool force = false;
    for (auto &o : S.inlineExtra) if (globMatch(o, n)) force = true;
    if (rec.count(&F)) op = true;
    if (!force && (StringRef(n).starts_with("std::") || StringRef(n).starts_with("tbb::") || StringRef(n).starts_with("__gnu_cxx::")) && !stdInlinable(n)) op = true;
    klass[&F] = op ? 2 : 0;
  }
  // marks
  auto *VoidTy = Type::getVoidTy(M.getContext());
  auto callMark = [&](Function &F, Instruction *before, StringRef pfx, Value *ret) {
    SmallVector<Value *, 8> args; for (auto &A : F.args()) args.push_back(&A);
    if (ret) args.push_back(ret);
    SmallVector<Type *, 8> tys; for (auto *v : args) tys.push_back(v->getType());
    std::string nm = (pfx + "." + nameOf(&F)).str();
    auto *FT = FunctionType::get(VoidTy, tys, false);
    auto FC = Function::Create(FT, GlobalValue::ExternalLinkage, nm, M); // unique suffix if duplicated
    names[FC] = nm; klass[FC] = 1;
    auto *C = CallInst::Create(FT, FC, args, "", before);
    DebugLoc dl = before->getDebugLoc();
    if (!dl && F.getSubprogram()) dl = DILocation::get(M.getContext(), F.getSubprogram()->getLine(), 0, F.getSubprogram());
    C->setDebugLoc(dl);
  };
  std::vector<Function *> fs; for (auto &F : M) if (!F.isDeclaration()) fs.push_back(&F);
  for (auto *F : fs) {
    const std::string n = nameOf(F);
    if (S.exitMarks.count(n)) {
      matchedMarks.insert("exit " + n);
      SmallVector<ReturnInst *, 4> rs; for (auto &I : instructions(*F)) if (auto *R = dyn_cast<ReturnInst>(&I)) rs.push_back(R);
      for (auto *R : rs) callMark(*F, R, "__vexit", R->getReturnValue());
    }
    if (S.enterMarks.count(n)) {
      matchedMarks.insert("enter " + n);
      Instruction *ip = &*F->getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      callMark(*F, ip, "__venter", nullptr);
    }
  }
}

bool Prep::prepareEntry(Function &F, const json::Object *E) {
  std::vector<const Function *> off; // functions this entry does not look into (they are analysed as, or within, another entry)
  if (E) if (auto *a = E->getArray("opaque")) for (auto &G : M) if (&G != &F && !G.isDeclaration() && klass.lookup(&G) == 0) for (auto &g : *a) if (globMatch(*g.getAsString(), nameOf(&G))) { off.push_back(&G); break; }
  for (auto *g : off) klass[g] = 2;
  struct Restore { Prep &P; std::vector<const Function *> &v; ~Restore() { for (auto *g : v) P.klass[g] = 0; } } restore{*this, off};
  for (int round = 0; round < 60; round++) {
    SmallVector<CallBase *, 64> calls;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *c = CB->getCalledFunction();
      if (!c || c->isDeclaration() || c == &F) continue;
      if (klass[c] == 0) calls.push_back(CB);
    }
    if (calls.empty()) break;
    for (auto *CB : calls) {
      InlineFunctionInfo IFI;
      auto *callee = CB->getCalledFunction();
      auto R = InlineFunction(*CB, IFI, false, nullptr, true);
      if (!R.isSuccess()) klass[callee] = 2; else inlinedCalls++;
    }
    size_t n = 0; for (auto &I : instructions(F)) { (void)I; n++; }
    if (n > 400000) return false;
  }
  removeUnreachableBlocks(F);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.run(F, FAM);
  SmallVector<Instruction *, 32> deadMarks;
  for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallInst>(&I)) if (auto *c = C->getCalledFunction()) if (c->getName().starts_with("__undef.") && C->use_empty()) deadMarks.push_back(C);
  for (auto *I : deadMarks) I->eraseFromParent();
  { // joins whose value is never used
    std::set<PHINode *> used; std::vector<PHINode *> w, all;
    for (auto &I : instructions(F)) if (auto *ph = dyn_cast<PHINode>(&I)) { all.push_back(ph); for (auto *u : ph->users()) if (!isa<PHINode>(u)) { used.insert(ph); w.push_back(ph); break; } }
    while (!w.empty()) { auto *ph = w.back(); w.pop_back(); for (auto &v : ph->incoming_values()) if (auto *q = dyn_cast<PHINode>(v.get())) if (used.insert(q).second) w.push_back(q); }
    for (auto *ph : all) if (!used.count(ph)) ph->replaceAllUsesWith(UndefValue::get(ph->getType()));
    for (auto *ph : all) if (!used.count(ph)) ph->eraseFromParent();
  }
  removeUnreachableBlocks(F);
  return true;
}
