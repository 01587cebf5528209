// Property simulation: a path-sensitive typestate interpreter over promoted IR.
#pragma once
#include "llvm/ADT/BitVector.h"
#include "prep.h"
#include <deque>
#include <memory>

struct Val {
  enum K : uint8_t { Undef, Int, Ent, EntU } k = Undef;
  int32_t id = -1; int64_t v = 0;
  static Val I(int64_t c) { Val x; x.k = Int; x.v = c; return x; }
  static Val E(int id, int64_t off = 0) { Val x; x.k = Ent; x.id = id; x.v = off; return x; }
  static Val U(int id) { Val x; x.k = EntU; x.id = id; return x; }
  bool isEnt() const { return k == Ent || k == EntU; }
  bool operator==(const Val &o) const { return k == o.k && id == o.id && v == o.v; }
};
enum EK : uint8_t { Plain, AllocaK, HeapK, GlobalK, VerK };
enum : uint32_t { F_NODE = 1, F_OBS = 2, F_RET = 4, F_FREED = 8, F_PUB = 16, F_REPL = 32, F_ROOTPEND = 64, F_NOTFULL = 128, F_HAVOC = 256, F_WASLOCKED = 512,
  F_VFAILED = 1024, F_CHILD = 2048, F_PARAM = 4096, F_WRITTEN = 8192, F_LIVE = 1 << 14, F_STALL = 1 << 15, F_U1 = 1 << 16, F_U2 = 1 << 17, F_U3 = 1 << 18, F_U4 = 1 << 19, F_STASH = 1 << 20, F_BAGEL = 1 << 21, F_U5 = 1 << 22, F_U6 = 1 << 23, F_U7 = 1 << 24, F_U8 = 1 << 25, F_OWN = 1 << 26, F_OUTREF = 1 << 27, F_EACH = 1 << 28, F_U9 = 1u << 29, F_U10 = 1u << 30, F_U11 = 1u << 31, F_BITS = 0xffffffff };
static const int64_t NEG = INT64_MIN, POS = INT64_MAX;
struct Entity {
  EK kind = Plain; int8_t leaf = -1; bool nz = false; uint8_t lock = 0; uint8_t shr = 0; uint8_t dirty = 0; bool orphan = false; int8_t tag = 0; // dirty: 1 read, 2 handover
  uint32_t fl = 0; int32_t of = -1, seq = 0; // Ver
  int32_t src = -1, fld = -1, cont = -1, part = -1, pubu = -1; // part: array owned by that node; pubu: published only into that locked node
  int64_t lo = NEG, hi = POS;
  const void *anchor = nullptr; // Alloca inst / Global
  Val lctx; // queue node / context the lock was taken with
  const Instruction *site = nullptr, *lockSite = nullptr;
  SmallVector<int32_t, 2> taint;
};
struct Cell { int32_t obj; int64_t off; int32_t sz; Val v; };
struct Rel { int32_t pred; Val a, b; bool r; };
struct Memo { int32_t op; Val a, b; Val r; };
struct State {
  std::vector<std::pair<uint32_t, Val>> env; // sorted
  std::vector<Entity> ents;
  std::vector<Cell> mem; // sorted by obj,off
  std::vector<Rel> rels;
  std::vector<Memo> memos;
  int32_t epoch = 0, bag = 0; bool failed = false, lost = false, retiredAny = false, exitedEpoch = false, backed = false; uint32_t gfl = 0;
  const Instruction *lostSite = nullptr, *failSite = nullptr;
};

struct Finding { std::string rule, entry, file, func, msg, key, chain; unsigned line = 0; std::vector<std::string> path; };

struct Engine {
  Module &M; Prep &P; Spec &S; FieldTable &FT; const DataLayout &DL;
  std::vector<Finding> finds; std::set<std::string> seenFind;
  std::map<std::string, uint64_t> stats; std::map<std::string, std::set<std::string>> sites; // rule -> distinct obligation sites
  std::set<std::string> truncated, enabled;
  Engine(Module &m, Prep &p, Spec &s, FieldTable &f) : M(m), P(p), S(s), FT(f), DL(m.getDataLayout()) { intern(""); }
  void runEntry(Function &F, const json::Object &E);

private:
  // ---- per-function tables
  Function *F = nullptr; std::string entryName; const json::Object *EO = nullptr;
  DenseMap<const Value *, unsigned> num; std::vector<const Value *> vals;
  DenseMap<const BasicBlock *, unsigned> bnum; std::vector<const BasicBlock *> blocks;
  std::map<const void *, std::pair<unsigned, unsigned>> cellOf; std::vector<BitVector> cellLive; void computeCellLive();
  std::vector<std::vector<unsigned>> liveIn; // sorted value numbers (non-phi)
  std::set<const BasicBlock *> headers;
  std::map<std::pair<const void *, int64_t>, std::set<int64_t>> widen; unsigned W = 6;
  std::set<const Value *> flagAllocas; std::string forceField;
  DenseMap<const Value *, AccessDesc> descCache;
  StringMap<int> strId; std::vector<std::string> strTab;
  int intern(StringRef s) { auto it = strId.find(s); if (it != strId.end()) return it->second; int id = strTab.size(); strTab.push_back(s.str()); strId[s] = id; return id; }
  void number(); void computeLive();
  struct QN { unsigned bb; int parent; State st; };
  std::vector<std::pair<unsigned, int>> trail; // (block, parent) of each queued node
  int curNode = -1;
  // ---- execution
  struct X { State st; DenseMap<unsigned, Val> sc; BasicBlock::const_iterator it; const BasicBlock *bb; bool dead = false; };
  std::vector<X> work; // forks inside a block
  void execBlock(unsigned bb, const State &in, std::vector<std::pair<unsigned, State>> &out);
  bool step(X &x, const Instruction &I); // false -> stop this X (dead or forked re-exec)
  void finish(X &x, const BasicBlock *succ, std::vector<std::pair<unsigned, State>> &out);
  Val get(X &x, const Value *v); void set(X &x, const Value *v, Val val);
  Val getAgg(X &x, const Value *v, unsigned i);
  static void slack(X &x);
  int fresh(X &x, EK k = Plain, const Instruction *site = nullptr);
  Val freshV(X &x, const Instruction *site) { return Val::E(fresh(x, Plain, site)); }
  void coarsen(State &s); std::set<const Value *> retFlow; std::string canon(const State &st, State *outSt);
  void substEnt(X &x, int from, Val to); void unify(X &x, int a, int b);
  bool refineEq(X &x, Val a, int64_t c, bool eq); // false -> infeasible
  int tri(X &x, CmpInst::Predicate p, Val a, Val b, unsigned bits, bool ptr); // 0/1/-1
  bool assume(X &x, CmpInst::Predicate p, Val a, Val b, bool r, unsigned bits, bool ptr);
  void range(X &x, Val a, int64_t &lo, int64_t &hi);
  bool isNoise(const Value *ptrV); bool isForgotten(const Value *ptrV);
  Val loadMem(X &x, const Instruction &I, const Value *ptrV, Val p, Type *ty); void storeMem(X &x, const Instruction &I, const Value *ptrV, Val p, Val v, Type *ty, uint64_t sz);
  Cell *cell(State &st, int obj, int64_t off, int sz); void putCell(State &st, int obj, int64_t off, int sz, Val v); void dropCells(State &st, int obj); void killOverlap(State &st, int obj, int64_t off, int sz);
  const AccessDesc &desc(const Value *p) { auto it = descCache.find(p); if (it != descCache.end()) return it->second; return descCache[p] = describe(const_cast<Value *>(p), DL); }
  bool accessField(X &x, const Value *ptrV, Val p, std::string &fld); // returns true if node memory
  void onRead(X &x, const Instruction &I, const Value *ptrV, Val p, Val *res); void onWrite(X &x, const Instruction &I, const Value *ptrV, Val p, const Val *v, Type *ty);
  void publish(X &x, int ent, const Instruction *I, int into = -1); int owner(X &x, int id); void released(X &x, int id); bool waitOrder(X &x, int id, const CallBase &C); bool isPrivate(const State &st, int e); void cmpHook(X &x, CmpInst::Predicate p, Val a, Val b); bool srcHeld(X &x, int id); bool argField(const json::Object *o, const CallBase &C, const std::vector<std::string> &fs);
  int latestTok(const State &st, int obj, bool failedToo = false); void clearTok(X &x, int ver);
  void call(X &x, const CallBase &C); bool ops(X &x, const CallBase &C, const json::Array &ops, StringRef name, Val ret, bool isMark);
  void havocArgs(X &x, const CallBase &C);
  void doRet(X &x, const ReturnInst &R);
  bool report(X &x, const Instruction *I, StringRef rule, const std::string &msg, const std::string &detail = "");
  void oblige(StringRef rule, const Instruction *I);
  bool chainHas(const Instruction *I, const std::vector<std::string> &pats);
  std::string chainFn(const Instruction *I); std::string chainAll(const Instruction *I); std::string locOf(const Instruction *I);
  std::string entName(X &x, int e);
  void fork(X &x, const std::function<bool(X &)> &alt); // clone current, run alt on the clone, continue clone after the current instr
  bool isFieldIn(const std::string &fld, const std::vector<std::string> &v) { for (auto &p : v) if (globMatch(p, fld)) return true; return false; }
  void newAttempt(X &x, const Instruction *I);
  void fail(X &x, const Instruction *I);
  void dump(const State &o); int keyFld(int f); std::vector<int> keyFldC;
  uint64_t steps = 0; int64_t leafMask = S.num("leaf_mask", 0);
public:
  uint64_t steps_() const { return steps; }
};
