#!/usr/bin/env python3
"""Decide one property of /repo statically.

  check.py <PROPERTY-ID> [--tier quick|thorough]

For every analysis unit the property concerns: compile the unit from /repo's current
working tree to LLVM IR, run the static analyser on it, keep the findings of the
rules that make up the property, and report.  Nothing of /repo is executed.
Exit 0: property held on everything analysed.  Exit 1: VIOLATION printed.
Exit 2: the analysis could not be performed (build error, vanished anchor)."""
import sys, os, json, subprocess, hashlib, time, fnmatch, re, concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import V, REPO, BUILD, LLVM, CLANGXX, CLANG, h, overlay


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def load(p):
    with open(os.path.join(V, p)) as f:
        return json.load(f)


def ensure_tool():
    r = subprocess.run(["make", "-s", "-C", os.path.join(V, "src")], capture_output=True, text=True)
    if r.returncode:
        die("cannot build the analyser:\n" + r.stdout[-2000:] + r.stderr[-2000:])


def compile_unit(u, outdir):
    """emit un-optimised, SSA-ready LLVM IR of a unit from the current sources"""
    out = os.path.join(outdir, u["name"] + ".bc")
    c = u.get("lang") == "c"
    cmd = [CLANG if c else CLANGXX, "-std=gnu11" if c else "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes",
           "-g", "-emit-llvm", "-c", "-w"]
    ov = overlay(u["overlay"], outdir) if u.get("overlay") else ""
    cmd += [f.replace("@REPO@", REPO).replace("@V@", V).replace("@OVERLAY@", ov) for f in u.get("flags", [])]
    if ov:
        cmd += ["-fdebug-prefix-map=%s=/overlay" % ov]
    cmd += [os.path.join(V, "tu", u["tu"]), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, "unit %s does not compile:\n%s" % (u["name"], r.stderr[-3000:])
    return out, None


def analyse_unit(u, tier, rules):
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    tmp = os.path.join(BUILD, "tmp", "%s.%d" % (u["name"], os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        bc, err = compile_unit(u, tmp)
        if err:
            return {"error": err}
        spec = os.path.join(V, "spec", u["spec"])
        args = []
        if tier == "thorough":
            o = json.load(open(spec))
            o.update({"widen": max(o.get("widen", 2), 3), "cap": 3000000, "coarse_at": 3000, "block_cap": 400000})
            for e in o["entries"]:
                e.pop("cap", None)
            if "thorough" in o:
                o.update(o["thorough"])
            spec = os.path.join(tmp, "spec.json")
            json.dump(o, open(spec, "w"))
        rl = ",".join(sorted(rules))
        key = h(rl, open(bc, "rb").read(), open(spec, "rb").read(), open(os.path.join(BUILD, "simcheck"), "rb").read())
        cache = os.path.join(BUILD, "cache", key + ".json")
        if os.path.exists(cache):
            return json.load(open(cache))
        out = os.path.join(tmp, "out.json")
        cmd = [os.path.join(BUILD, "simcheck"), "--spec", spec, "--bc", bc, "--out", out, "--rules", rl]
        limit = 840 if tier == "thorough" else 600
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            return {"error": "analysis of unit %s exceeded %d s" % (u["name"], limit)}
        if r.returncode:
            return {"error": "analyser failed on unit %s (rc %d): %s" % (u["name"], r.returncode, r.stderr[-1500:])}
        res = json.load(open(out))
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        with open(cache + ".%d" % os.getpid(), "w") as f:
            json.dump(res, f)
        os.replace(cache + ".%d" % os.getpid(), cache)
        return res
    finally:
        subprocess.run(["rm", "-rf", tmp])


def match_known(k, prop, unit, f):
    if k.get("property") != prop or k.get("unit") != unit:
        return False
    for fld in ("rule", "entry", "func", "file", "chain"):
        if fld in k and not fnmatch.fnmatchcase(os.path.basename(f[fld]) if fld == "file" else f[fld], k[fld]):
            return False
    return True


def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") == "thorough":
        tier = "thorough"
    t0 = time.time()
    props = load("spec/props.json")
    units = {u["name"]: u for u in load("spec/units.json")}
    if prop not in props:
        die("unknown property " + prop)
    P = props[prop]
    known = load("known_findings.json")["known"]
    ensure_tool()
    names = P.get("units", [])
    findings, problems, cov = [], [], {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {n: ex.submit(analyse_unit, units[n], tier, P.get("rules", [])) for n in names}
        extra = []
        for mod in P.get("modules", []):
            m = __import__("lint_" + mod)
            extra.append((mod, ex.submit(m.run, prop, REPO, V, tier)))
        res = {n: f.result() for n, f in futs.items()}
        extra = [(m, f.result()) for m, f in extra]
    rules = set(P.get("rules", []))
    total_ob = 0
    entries, states, trunc, samples, notes = [], 0, [], [], []
    for n, r in res.items():
        if "error" in r:
            problems.append(r["error"])
            continue
        spec = load("spec/" + units[n]["spec"])
        opt = set(spec.get("optional", []))
        gone = sorted(set(r["missing_entries"] + r["missing_prims"]))
        notes += ["unit %s: %s not present in the current sources" % (n, x) for x in gone if x in r["missing_prims"] or x in opt]
        miss = [x for x in r["missing_entries"] if x not in opt]
        if miss:
            problems.append("unit %s: anchors not found in the current sources: %s" % (n, ", ".join(miss)))
        obl = {k: v for k, v in r["sites"].items() if k in P.get("obligations", []) or k.split(".")[0] in P.get("obligations", [])}
        need = P.get("min_obligations", 0)
        total_ob += sum(obl.values())
        cov[n] = {"entries": len(r["entries"]), "abstract_states": r["stats"].get("states", 0), "obligation_sites": obl,
                  "inlined_calls": r["stats"].get("inlined", 0), "truncated_entries": r["truncated"]}
        entries += ["%s:%s" % (n, e) for e in r["entries"]]
        states += r["stats"].get("states", 0)
        trunc += ["%s:%s" % (n, t) for t in r["truncated"]]
        for k in obl:
            for s in r.get("site_samples", {}).get(k, [])[:2]:
                samples.append("%s %s at %s" % (n, k, s))
        for f in r["findings"]:
            if f["rule"] in rules:
                f = dict(f)
                f["unit"] = n
                findings.append(f)
    for m, r in extra:
        problems += r.get("problems", [])
        cov["lint:" + m] = r.get("coverage", {})
        total_ob += r.get("obligations", 0)
        entries += r.get("entries", [])
        samples += r.get("samples", [])[:12]
        for f in r.get("findings", []):
            f.setdefault("entry", "")
            f.setdefault("chain", f.get("func", ""))
            f.setdefault("path", [])
            findings.append(f)
    if not problems and total_ob == 0:
        problems.append("no obligation of this property was found in the current sources")
    bad, kn = [], {}
    for f in findings:
        k = next((k for k in known if match_known(k, prop, f["unit"], f)), None)
        if k:
            kn.setdefault(k["id"], (k, []))[1].append(f)
        else:
            bad.append(f)
    for i, (k, fs) in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%d site(s))" % (prop, k["what"], len(fs)))
    rc = 0
    replays = []
    if bad:
        rc = 1
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + ".txt")
        seen = set()
        with open(rp, "w") as o:
            for f in bad:
                o.write("[%s] %s:%s in %s (entry %s, unit %s)\n    %s\n" % (f["rule"], f["file"], f["line"], f["func"], f["entry"], f["unit"], f["msg"]))
                if f["path"]:
                    o.write("    path: " + " -> ".join(f["path"]) + "\n")
        for f in bad[:20]:
            print("  [%s] %s:%s in %s (entry %s): %s" % (f["rule"], f["file"], f["line"], f["func"], f["entry"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    if problems:
        for p in problems:
            print("ERROR: " + p)
        if rc == 0:
            rc = 2
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "other"),
          "coverage": {
              "explanation": P["explanation"] + (" State-limit truncation in: " + ", ".join(trunc) + "." if trunc else ""),
              "rules": sorted(rules) + ["lint:" + m for m, _ in extra],
              "entry_points": entries, "abstract_states": states, "obligation_sites": total_ob,
              "per_unit": cov, "obligation_samples": samples[:40],
              "known_findings": {i: len(fs) for i, (k, fs) in kn.items()},
              "truncated_entries": trunc},
          "assumptions": P.get("assumptions", []) + load("spec/assumptions.json"),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    if notes:
        ev["coverage"]["notes"] = notes
    if problems:
        ev["coverage"]["problems"] = problems
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))
    if rc == 0:
        print("OK property=%s obligations=%d entry_points=%d states=%d wall=%.1fs" % (prop, total_ob, len(entries), states, time.time() - t0))
    sys.exit(rc)


main()
