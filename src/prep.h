// Module preparation: name normalisation, field tables, lowering, inlining.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;

std::string normName(StringRef mangled);          // "ns::Class::fn" without template args / params
std::string normType(StringRef llvmTypeName);     // "class.ns::T.12" -> "ns::T"
bool globMatch(StringRef pat, StringRef s);

std::string diTypeName(const DICompositeType *C);
struct FieldTable { // (type -> sorted (offset,size,name)), from debug info, bases flattened
  struct F { uint64_t off, size; std::string name, sub; };
  std::map<std::string, std::vector<F>> t;
  void build(Module &M);
  std::string fieldAt(const std::string &type, uint64_t off) const; // "Type.field" or "Type.?"
  std::string innerAt(const std::string &type, uint64_t off) const; // innermost "Type.field", descending into member structs
};

// Static description of the memory a pointer operand denotes
struct AccessDesc {
  SmallVector<std::pair<std::string, int64_t>, 3> types; // (struct type, byte offset of access in it, -1 unknown), outermost last
};
AccessDesc describe(Value *ptr, const DataLayout &DL);

struct Spec {
  json::Object root;
  std::vector<std::string> nodes, lockword, readFree, writeFree, opaque, dead, inlineExtra, handoverExempt, rootFields, noInlineStd, readFreeFns, childFields, trackFields, immortal, partFields, waitDown, waitForbid, waitOk, heldFields, noise, forget, liveFields, liveExempt, handoverFree;
  StringMap<json::Array> prims, enterMarks, exitMarks;
  bool load(StringRef path, std::string &err);
  bool flag(StringRef k, bool d = false) const { if (auto b = root.getBoolean(k)) return *b; return d; }
  int64_t num(StringRef k, int64_t d) const { if (auto b = root.getInteger(k)) return *b; return d; }
  bool isNodeType(const std::string &t) const { for (auto &n : nodes) if (globMatch(n, t)) return true; return false; }
};

// Lower exceptions, insert marks, inline everything into F, promote.
struct Prep {
  Module &M; Spec &S;
  DenseMap<const Function *, std::string> names;
  DenseMap<const Function *, int> klass; // 0 inline, 1 prim, 2 opaque
  std::set<std::string> matchedPrims, matchedMarks;
  unsigned inlinedCalls = 0;
  Prep(Module &m, Spec &s) : M(m), S(s) {}
  void run();                       // whole-module lowering & classification
  bool prepareEntry(Function &F, const json::Object *E = nullptr);   // inline into F
  const std::string &nameOf(const Function *F);
};
