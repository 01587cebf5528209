"""Reclamation primitives: what is known when an object is released, an epoch is announced, an object is labelled, and
the global epoch advances.  Each unit is compiled from the current sources and decided by the order-fact analyser
(src/orders.cpp) against its contract in spec/recl_<unit>.json."""
import os, json, subprocess, concurrent.futures as cf
from common import V, REPO, BUILD, CLANGXX, CLANG, h, overlay

UNITS = {
    "art": dict(tu="art.cpp", flags=["-DNDEBUG", "-I@V@/stubs_recl", "-I@REPO@"], dirs=["ARTOLC/"]),
    "hot": dict(tu="hot.cpp", overlay="hot", dirs=["HOT/"],
                flags=["-DNDEBUG", "-Wno-narrowing", "-march=x86-64-v4", "-I@V@/stubs_recl", "-I@OVERLAY@/HOT/include"]),
    "mt": dict(tu="mt.cpp", flags=["-DNDEBUG", "-I@REPO@/MassTree", "-include", "@REPO@/MassTree/config.h"], dirs=["MassTree/"]),
    "wh": dict(tu="wh.c", flags=["-DNDEBUG", "-march=x86-64-v4", "-I@REPO@"], dirs=["wormhole/"]),
}
BY = {"C04": ["art", "hot", "mt", "wh"], "C05": ["art", "hot", "mt", "wh"], "C15": ["wh"]}


def one(name, tier):
    u = UNITS[name]
    tmp = os.path.join(BUILD, "tmp", "recl_%s.%d" % (name, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        ov = overlay(u["overlay"], tmp) if u.get("overlay") else ""
        c = u["tu"].endswith(".c")
        bc = os.path.join(tmp, "u.bc")
        cmd = [CLANG if c else CLANGXX, "-std=gnu11" if c else "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
               "-fstandalone-debug", "-emit-llvm", "-c", "-w"]
        cmd += [f.replace("@REPO@", REPO).replace("@V@", V).replace("@OVERLAY@", ov) for f in u["flags"]]
        if ov:
            cmd += ["-fdebug-prefix-map=%s=%s" % (ov, REPO)]
        r = subprocess.run(cmd + [os.path.join(V, "tu", "recl", u["tu"]), "-o", bc], capture_output=True, text=True)
        if r.returncode:
            return name, None, "unit recl_%s does not compile:\n%s" % (name, r.stderr[-2000:])
        spec = os.path.join(V, "spec", "recl_%s.json" % name)
        if tier == "thorough":
            o = json.load(open(spec))
            o["block_cap"] = 40000
            spec = os.path.join(tmp, "spec.json")
            json.dump(o, open(spec, "w"))
        tool = os.path.join(BUILD, "orders")
        key = h("recl", open(bc, "rb").read(), open(spec, "rb").read(), open(tool, "rb").read())
        cache = os.path.join(BUILD, "cache", key + ".json")
        if os.path.exists(cache):
            return name, json.load(open(cache)), None
        out = os.path.join(tmp, "out.json")
        try:
            r = subprocess.run([tool, "--spec", spec, "--bc", bc, "--out", out], capture_output=True, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            return name, None, "analysis of recl_%s exceeded its time" % name
        if r.returncode:
            return name, None, "analyser failed on recl_%s: %s" % (name, r.stderr[-1000:])
        res = json.load(open(out))
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        with open(cache + ".%d" % os.getpid(), "w") as f:
            json.dump(res, f)
        os.replace(cache + ".%d" % os.getpid(), cache)
        return name, res, None
    finally:
        subprocess.run(["rm", "-rf", tmp])


def run(prop, repo, v, tier):
    out = {"problems": [], "coverage": {}, "obligations": 0, "entries": [], "samples": [], "findings": []}
    names = BY.get(prop, list(UNITS))
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda n: one(n, tier), names))
    for name, rs, err in res:
        if err:
            out["problems"].append(err)
            continue
        cov = {}
        want = {e["fn"]: len(e.get("checks", [])) for e in json.load(open(os.path.join(v, "spec", "recl_%s.json" % name)))["entries"]}
        for r in rs:
            fn = r["fn"]
            if "error" in r:
                out["problems"].append("recl_%s/%s: %s" % (name, fn, r["error"]))
                continue
            fs = list(r["findings"])
            if r["truncated"]:
                out["problems"].append("recl_%s/%s: too many states" % (name, fn))
            if not r.get("returns"):
                fs.append({"msg": "no path of the operation returns", "file": "", "line": 0})
            for f in fs:
                p = f["file"]
                if p.startswith(REPO + "/"):
                    p = p[len(REPO) + 1:]
                out["findings"].append({"rule": "reclamation", "unit": "recl_" + name, "entry": fn, "func": fn[3:], "file": p, "line": f["line"], "msg": f["msg"], "chain": fn})
            cov[fn[3:]] = {"abstract_states": r["states"], "returns": r.get("returns", 0), "obligations": r["obligations"]}
            out["obligations"] += r["obligations"]
            out["entries"].append("recl_%s:%s" % (name, fn[3:]))
            out["samples"] += ["recl_%s %s" % (name, s.replace(REPO + "/", "").replace("|", " at ")) for s in r["sites"][:3]]
        out["coverage"][name] = cov
    return out


if __name__ == "__main__":
    import sys
    r = run(sys.argv[1] if len(sys.argv) > 1 else "C20", REPO, V, "quick")
    for p in r["problems"]:
        print("ERROR", p)
    for f in r["findings"]:
        print("%(unit)s %(entry)s %(file)s:%(line)s %(msg)s" % f)
    print(r["obligations"], "obligations")
