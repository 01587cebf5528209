#include "engine.h"
#include "llvm/Support/CommandLine.h"
static cl::opt<std::string> SpecF("spec", cl::Required), BC("bc", cl::Required), Out("out", cl::init("-")), Only("entry", cl::init("")), Dump("dump", cl::init("")), Rules("rules", cl::init(""));
static cl::opt<bool> List("list", cl::init(false)), Verbose("v", cl::init(false));
int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(BC, Err, Ctx); if (!M) { Err.print("simcheck", errs()); return 3; }
  Spec S; std::string e; if (!S.load(SpecF, e)) { errs() << e << "\n"; return 3; }
  FieldTable FT; FT.build(*M);
  if (List) { for (auto &F : *M) if (!F.isDeclaration()) outs() << normName(F.getName()) << "\n"; return 0; }
  Prep P(*M, S); P.run();
  Engine En(*M, P, S, FT); { SmallVector<StringRef, 16> rs; StringRef(Rules).split(rs, ',', -1, false); for (auto r : rs) En.enabled.insert(r.str()); }
  json::Array missing; unsigned entries = 0; json::Array entList;
  std::vector<std::pair<Function *, const json::Object *>> todo;
  for (auto &ev : *S.root.getArray("entries")) {
    const json::Object *eo = ev.getAsObject(); std::string fn = eo->getString("fn")->str(); bool any = false;
    for (auto &F : *M) if (!F.isDeclaration() && globMatch(fn, P.nameOf(&F)) ) { any = true; if (Only.empty() || StringRef(P.nameOf(&F)).contains(Only)) todo.push_back({&F, eo}); }
    if (!any) missing.push_back(fn);
  }
  for (auto &p : todo) {
    entries++; if (Verbose) errs() << "== " << P.nameOf(p.first) << "\n";
    if (!P.prepareEntry(*p.first, p.second)) { En.truncated.insert(P.nameOf(p.first) + " (too large)"); continue; }
    if (!Dump.empty() && StringRef(P.nameOf(p.first)).contains(Dump)) p.first->print(outs());
    size_t before = En.steps_(); (void)before;
    En.runEntry(*p.first, *p.second); entList.push_back(P.nameOf(p.first));
    if (Verbose) errs() << "   states " << En.stats["states." + P.nameOf(p.first)] << " findings " << En.finds.size() << "\n";
  }
  json::Object o; o["unit"] = S.root.getString("unit").value_or("?"); o["entries"] = std::move(entList); o["missing_entries"] = std::move(missing);
  json::Array mp; for (auto &k : S.prims) if (!P.matchedPrims.count(k.first().str())) mp.push_back(k.first().str());
  for (auto &k : S.enterMarks) if (!P.matchedMarks.count("enter " + k.first().str())) mp.push_back("enter " + k.first().str());
  for (auto &k : S.exitMarks) if (!P.matchedMarks.count("exit " + k.first().str())) mp.push_back("exit " + k.first().str());
  o["missing_prims"] = std::move(mp);
  json::Object st; for (auto &k : En.stats) st[k.first] = (int64_t)k.second; o["stats"] = std::move(st);
  json::Object si; for (auto &k : En.sites) si[k.first] = (int64_t)k.second.size(); o["sites"] = std::move(si);
  json::Object sl; for (auto &k : En.sites) if (!StringRef(k.first).starts_with("opaque.")) { json::Array a; int c = 0; for (auto &s : k.second) { if (c++ >= 4) break; a.push_back(s); } sl[k.first] = std::move(a); } o["site_samples"] = std::move(sl);
  json::Array tr; for (auto &t : En.truncated) tr.push_back(t); o["truncated"] = std::move(tr);
  json::Array fs; for (auto &f : En.finds) { json::Array p; for (auto &l : f.path) p.push_back(l); fs.push_back(json::Object{{"rule", f.rule}, {"entry", f.entry}, {"file", f.file}, {"line", (int64_t)f.line}, {"func", f.func}, {"msg", f.msg}, {"key", f.key}, {"chain", f.chain}, {"path", std::move(p)}}); }
  o["findings"] = std::move(fs);
  std::string s; raw_string_ostream os(s); os << formatv("{0:2}", json::Value(std::move(o)));
  if (Out == "-") outs() << os.str() << "\n"; else { std::error_code ec; raw_fd_ostream f(Out, ec); f << os.str() << "\n"; }
  return 0;
}
