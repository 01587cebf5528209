"""Contracts of the lock-word primitives, decided over the path summaries that `words` computes from the IR.

Every primitive is wrapped by one extern "C" function (tu/locks/*), everything is inlined into it, and all its paths
are enumerated over the abstract word domain (loops a bounded number of times, each turn starting from fresh
snapshots of the word).  The contracts below are then evaluated on every path."""
import os, json, subprocess, re, concurrent.futures as cf
from common import V, REPO, BUILD, CLANG, CLANGXX, overlay, h

ACQ = {"acquire", "acq_rel", "seq_cst"}
REL = {"release", "acq_rel", "seq_cst"}

LAY = {"olc": [["obsolete", 1], ["lock", 1], ["ver", 60], ["type", 2]],
       "oq": [["ver", 63], ["lock", 1]],
       "rw32": [["readers", 31], ["lock", 1]],
       "rw64": [["readers", 63], ["lock", 1]],
       "mass": [["lock", 1], ["inserting", 1], ["splitting", 1], ["vinsert", 6], ["vsplit", 19], ["unused", 1], ["deleted", 1], ["root", 1], ["leaf", 1]],
       "fb": [["del", 1], ["lock", 1], ["sibling", 1], ["leaf", 1], ["order", 1], ["z", 3], ["split", 16], ["ver", 40]],
       "bit8": [["set", 1], ["0", 7]],
       "tag": [["lo", 29], ["obsolete", 1], ["ntype", 2]],
       "qver": [["ver", 63], ["0", 1]]}


def fields(lay, val):
    """word value (list of segments, low to high) -> {field: ('c',n) | ('s',name,off) | None}"""
    bits = []
    for s in val:
        if s[0] == "c":
            bits += [("c", s[2])] * s[1]
        elif s[0] == "s":
            bits += [("s", s[2], s[3], s[4] + i, s[5]) for i in range(s[1])]
        else:
            bits += [("x",)] * s[1]
    out, p = {}, 0
    for n, w in LAY[lay]:
        b = bits[p:p + w]
        p += w
        if len(b) == w and all(x[0] == "c" for x in b):
            out[n] = ("c", sum(x[1] << i for i, x in enumerate(b)))
        elif len(b) == w and b[0][0] == "s" and all(x[0] == "s" and x[1] == b[0][1] and x[2] == b[0][2] and x[3] == i for i, x in enumerate(b)) and b[0][4] == w:
            out[n] = ("s", b[0][1], b[0][2])
        else:
            out[n] = None
    return out


def delta(a, b, w):
    """b - a for two field values, None if not comparable"""
    if a is None or b is None or a[0] != b[0]:
        return None
    d = None
    if a[0] == "c":
        d = b[1] - a[1]
    elif a[1] == b[1]:
        d = b[2] - a[2]
    if d is None:
        return None
    d &= (1 << w) - 1
    return d - (1 << w) if w > 1 and d >> (w - 1) else d


def const(v):
    if v is None or any(s[0] != "c" for s in v):
        return None
    n, p = 0, 0
    for s in v:
        n |= s[2] << p
        p += s[1]
    return n


class P:
    """one path"""
    def __init__(self, g, raw):
        self.raw, self.g = raw, g
        self.ev = raw["ev"]
        self.cut = raw.get("cut", False)
        self.ret = raw.get("ret")
        self.mem = raw.get("mem", {})
        self.args = raw.get("args", {})

    def on(self, cell, *kinds):
        return [e for e in self.ev if e["loc"] == cell and (not kinds or e["k"] in kinds)]

    def writes(self, cell="word"):
        """transitions of the word: atomic read-modify-writes and plain/atomic stores, in order"""
        return [e for e in self.ev if e["loc"] == cell and e["k"] in ("rmw", "store")]

    def loads(self, cell="word"):
        return [e for e in self.ev if e["loc"] == cell and e["k"] in ("load", "casfail")]


def w_of(lay, f):
    return dict(LAY[lay])[f]


class Ck:
    def __init__(self, lay):
        self.lay = lay
        self.bad = []

    def fail(self, msg, e=None):
        self.bad.append((msg, (e or {}).get("file", ""), (e or {}).get("line", 0)))

    def f(self, v):
        return fields(self.lay, v)

    def trans(self, e, what, old=None, new=None, same=(), changed=(), plus=None, order=None):
        """check one transition"""
        o, n = self.f(e["old"]) if e["old"] else None, self.f(e["new"])
        if o is None:
            self.fail("%s overwrites the lock word without reading it in the same step" % what, e)
            return
        for k, v in (old or {}).items():
            if o[k] != ("c", v):
                self.fail("%s can proceed from a word whose '%s' field is not %d" % (what, k, v), e)
        for k, v in (new or {}).items():
            if n[k] != ("c", v):
                self.fail("%s does not leave '%s' = %d in the word" % (what, k, v), e)
        for k in same:
            if o[k] is None or o[k] != n[k]:
                self.fail("%s changes the '%s' field of the word" % (what, k), e)
        for k in changed:
            d = delta(o[k], n[k], w_of(self.lay, k))
            if not d:
                self.fail("%s does not advance the '%s' field of the word" % (what, k), e)
        for k, v in (plus or {}).items():
            if delta(o[k], n[k], w_of(self.lay, k)) != v:
                self.fail("%s does not change the '%s' field by %d" % (what, k, v), e)
        if order == "acq" and e["k"] == "rmw" and e["ord"] not in ACQ:
            self.fail("%s takes the lock with ordering '%s', weaker than acquire" % (what, e["ord"]), e)
        if order == "rel" and e["ord"] not in REL:
            self.fail("%s gives the lock up with ordering '%s', weaker than release" % (what, e["ord"]), e)

    def net0(self, p, what, cell="word"):
        """the path leaves no trace in the word: each added amount is taken back"""
        tot = {}
        for e in p.writes(cell):
            if not e["old"]:
                self.fail("%s stores to the lock word although it failed" % what, e)
                return
            o, n = self.f(e["old"]), self.f(e["new"])
            for k in o:
                d = delta(o[k], n[k], w_of(self.lay, k))
                if d is None:
                    self.fail("%s changes the lock word although it failed" % what, e)
                    return
                tot[k] = tot.get(k, 0) + d
        if any(tot.values()):
            self.fail("%s leaves a trace in the lock word although it failed" % what, (p.writes(cell) or [None])[-1])

    def settle(self, p, what, cell="word"):
        """the transition(s) of a successful path, with failed attempts that were undone removed"""
        ws = p.writes(cell)
        if any(not e["old"] for e in ws):
            return ws
        i = 0
        out = []
        while i < len(ws):
            if i + 1 < len(ws):
                a, b = ws[i], ws[i + 1]
                fo, fn, go, gn = self.f(a["old"]), self.f(a["new"]), self.f(b["old"]), self.f(b["new"])
                ds = [delta(fo[k], fn[k], w_of(self.lay, k)) for k in fo]
                es = [delta(go[k], gn[k], w_of(self.lay, k)) for k in go]
                if None not in ds and None not in es and any(ds) and all(x + y == 0 for x, y in zip(ds, es)):
                    i += 2
                    continue
            out.append(ws[i])
            i += 1
        return out

    def one(self, p, what, cell="word"):
        ws = self.settle(p, what, cell)
        if len(ws) != 1:
            self.fail("%s succeeds after %d changes of the lock word instead of exactly one" % (what, len(ws)), (ws or p.ev or [None])[-1])
            return None
        return ws[0]


# ---- optimistic version locks (ARTOLC, BTreeOLC) --------------------------------------------------
REST = ("obsolete", "type")


def flag(p, c="flag"):
    return const(p.mem.get(c))


def c_begin(c, p):
    if c.net0(p, "taking a version"):
        return
    ls = [e for e in p.loads()]
    if flag(p) == 0:
        if not ls:
            return c.fail("a version is handed out without reading the lock word")
        e = ls[-1]
        w = c.f(p.ret)
        if w["lock"] != ("c", 0):
            c.fail("a version is handed out for a locked node", e)
        if "obsolete" in w and w["obsolete"] != ("c", 0):
            c.fail("a version is handed out for an obsolete node", e)
        if w != c.f(e["new"]):
            c.fail("the version handed out is not the word that was read", e)
        if e["ord"] not in ACQ:
            c.fail("a version is read with ordering '%s', weaker than acquire" % e["ord"], e)
        return "ok"
    if flag(p) == 1:
        return "fail"
    c.fail("taking a version leaves the restart flag undetermined", (ls or [None])[-1])


def same_word(c, a, b):
    """1 equal, 0 not equal, None unknown, from resolved values"""
    x, y = c.f(a), c.f(b)
    if all(x[k] is not None and x[k] == y[k] for k in x):
        return 1
    return None


def c_validate(c, p, arg="v", extra=()):
    c.net0(p, "a validation")
    ls = p.loads()
    if flag(p) == 0:
        if not ls:
            return c.fail("a validation succeeds without reading the lock word")
        if same_word(c, ls[-1]["new"], p.args[arg]) != 1:
            return c.fail("a validation succeeds although the word may differ from the version", ls[-1])
        if ls[-1]["ord"] not in ACQ:
            c.fail("a validation reads the word with ordering '%s', weaker than acquire" % ls[-1]["ord"], ls[-1])
        return "ok"
    if flag(p) == 1:
        return "fail"
    c.fail("a validation leaves the restart flag undetermined", (ls or [None])[-1])


def c_upgrade(c, p, kind="olc"):
    if flag(p) == 0:
        e = c.one(p, "the upgrade")
        if not e:
            return
        if e["k"] != "rmw":
            return c.fail("the upgrade changes the word without an atomic step", e)
        if same_word(c, e["old"], p.raw["v0"]) != 1:
            c.fail("the upgrade takes the lock although the word may differ from the version it was given", e)
        same = [k for k, _ in LAY[c.lay] if k in ("obsolete", "type", "ver")]
        c.trans(e, "the upgrade", old={"lock": 0}, new={"lock": 1}, same=same, order="acq")
        return "ok"
    if flag(p) == 1:
        c.net0(p, "a failed upgrade")
        return "fail"
    c.fail("the upgrade leaves the restart flag undetermined", (p.ev or [None])[-1])


def c_lock_olc(c, p):
    if flag(p) == 0:
        e = c.one(p, "taking the lock")
        if not e:
            return
        c.trans(e, "taking the lock", old={"lock": 0, "obsolete": 0}, new={"lock": 1}, same=("obsolete", "ver", "type"), order="acq")
        if e["k"] != "rmw":
            c.fail("the lock is taken without an atomic step", e)
        return "ok"
    if flag(p) == 1:
        c.net0(p, "a failed lock attempt")
        return "fail"
    c.fail("locking leaves the restart flag undetermined", (p.ev or [None])[-1])


def c_unlock_olc(c, p, obsolete=0):
    e = c.one(p, "the unlock")
    if e:
        c.trans(e, "the unlock", new={"lock": 0, "obsolete": obsolete}, same=("type",), changed=("ver",), order="rel")
    return "ok"


# ---- OptiQL ---------------------------------------------------------------------------------------
def c_oq_begin_spin(c, p):
    c.net0(p, "taking a version")
    ls = p.loads()
    if not ls or c.f(p.ret)["lock"] != ("c", 0) or c.f(p.ret) != c.f(ls[-1]["new"]):
        c.fail("a version is handed out for a locked node", (ls or [None])[-1])
    elif ls[-1]["ord"] not in ACQ:
        c.fail("a version is read with ordering weaker than acquire", ls[-1])
    return "ok"


def c_oq_lock(c, p):
    e = c.one(p, "taking the lock")
    if e:
        c.trans(e, "taking the lock", old={"lock": 0}, new={"lock": 1}, same=("ver",), order="acq")
        if e["k"] != "rmw":
            c.fail("the lock is taken without an atomic step", e)
    return "ok"


def c_oq_unlock(c, p):
    e = c.one(p, "the unlock")
    if e:
        c.trans(e, "the unlock", new={"lock": 0}, changed=("ver",), order="rel")
    return "ok"


def ptr_is(c, word, argname, lockbit=1):
    """word carries the address of the argument (63 bits) plus the lock bit"""
    f = c.f(word)
    return f["lock"] == ("c", lockbit) and f["ver"] is not None and f["ver"][0] == "s" and f["ver"][1] == argname and f["ver"][2] == 0


def qfields(v):
    return fields("qver", v)


def last_store(p, loc, before=None):
    r = None
    for e in p.ev:
        if e is before:
            break
        if e["k"] == "store" and e["loc"] == loc:
            r = e
    return r


def c_oq_lock_q(c, p, restart=False):
    """queue lock: append itself by one exchange; own the lock at once if the word was unlocked, otherwise after the
    predecessor handed it over"""
    ws = p.writes()
    if len(ws) != 1 or ws[0]["k"] != "rmw":
        return c.fail("the queue lock changes the word %d times instead of once" % len(ws), (ws or p.ev or [None])[-1])
    e = ws[0]
    if not ptr_is(c, e["new"], "q"):
        return c.fail("the queue lock does not install its own queue node with the lock bit", e)
    if e["ord"] not in ACQ:
        c.fail("the queue lock appends itself with ordering weaker than acquire", e)
    n0, v0 = last_store(p, "q.next", e), last_store(p, "q.version", e)
    if n0 is None or const(n0["new"]) != 0:
        c.fail("the queue node is published before its successor link is cleared", e)
    o = c.f(e["old"])
    if o["lock"] == ("c", 0):
        v = last_store(p, "q.version")
        f = qfields(v["new"])["ver"] if v is not None and v is not v0 else None
        if not delta(o["ver"], f, 63):
            c.fail("after taking a free lock the queue node is not given a newer version than the lock word had", v or e)
        if p.on("q.version", "load"):
            pass
        return "ok"
    if o["lock"] == ("c", 1):
        if v0 is None or const(v0["new"]) != 0:
            c.fail("the queue node is published before its grant field is cleared", e)
        link = [x for x in p.ev if x["k"] == "store" and o["ver"] is not None and x["loc"].startswith(o["ver"][1] + "+")]
        if not any(ptr_q(x["new"], "q") for x in link):
            return c.fail("a waiting thread does not link itself behind its predecessor", e)
        i = p.ev.index(e)
        first = next((j for j, x in enumerate(p.ev) if j > i and x["k"] == "load" and x["loc"] == "q.version"), len(p.ev))
        if not any(x in link and ptr_q(x["new"], "q") for x in p.ev[:first]):
            return c.fail("a waiting thread waits before it has linked itself behind its predecessor", e)
        waits = [x for x in p.ev[i:] if x["k"] == "load" and x["loc"] == "q.version"]
        if not waits:
            return c.fail("a waiting thread enters without waiting for the predecessor to hand the lock over", e)
        if not nonzero(p, waits[-1]["new"]):
            return c.fail("a waiting thread enters although the predecessor may not have handed the lock over", waits[-1])
        if waits[-1]["ord"] not in ACQ:
            c.fail("the hand-over is awaited with ordering weaker than acquire", waits[-1])
        return "ok"
    c.fail("the queue lock does not distinguish a free from a held lock word", e)


def ptr_q(v, name):
    f = fields("qver", v)["ver"]
    return f is not None and f[0] == "s" and f[1] == name and f[2] == 0


def nonzero(p, v):
    if const(v):
        return True
    for a, b in p.raw.get("neq", []):
        for x, y in ((a, b), (b, a)):
            if const(y) == 0 and trim(x) == trim(v):
                return True
    return False


def trim(v):
    return [s for s in v if s[0] != "c"]


def c_oq_upgrade_q(c, p):
    if flag(p) == 0:
        e = c.one(p, "the upgrade")
        if not e:
            return
        if e["k"] != "rmw" or same_word(c, e["old"], p.raw["v0"]) != 1:
            c.fail("the upgrade takes the lock although the word may differ from the version it was given", e)
        if not ptr_is(c, e["new"], "q"):
            c.fail("the upgrade does not install its own queue node with the lock bit", e)
        if e["ord"] not in ACQ:
            c.fail("the upgrade uses an ordering weaker than acquire", e)
        n0, v0 = last_store(p, "q.next", e), last_store(p, "q.version", e)
        if n0 is None or const(n0["new"]) != 0:
            c.fail("the queue node is published before its successor link is cleared", e)
        if v0 is None or not delta(c.f(p.raw["v0"])["ver"], qfields(v0["new"])["ver"], 63):
            c.fail("the queue node is published without the version that the unlock will install", e)
        return "ok"
    if flag(p) == 1:
        c.net0(p, "a failed upgrade")
        return "fail"
    c.fail("the upgrade leaves the restart flag undetermined", (p.ev or [None])[-1])


def c_oq_unlock_q(c, p):
    ws = p.writes()
    ver = p.mem.get("q.version")
    vf = qfields(ver)["ver"] if ver else None
    if ws:
        e = ws[0]
        if len(ws) != 1 or e["k"] != "rmw":
            return c.fail("the queue unlock changes the word more than once or without an atomic step", ws[-1])
        if not ptr_is(c, e["old"], "q"):
            c.fail("the queue unlock releases the word although a successor may have queued itself", e)
        n = c.f(e["new"])
        if n["lock"] != ("c", 0) or n["ver"] is None or n["ver"] != vf:
            c.fail("the queue unlock does not install the new version", e)
        if e["ord"] not in REL:
            c.fail("the queue unlock uses an ordering weaker than release", e)
        nx = [x for x in p.ev if x["k"] == "load" and x["loc"] == "q.next"]
        return "ok"
    nx = [x for x in p.ev if x["k"] == "load" and x["loc"] == "q.next"]
    if not nx or not nonzero(p, nx[-1]["new"]):
        return c.fail("the queue unlock neither releases the word nor hands the lock to a successor", (p.ev or [None])[-1])
    nm = nx[-1]["new"][0][2]
    st = [x for x in p.ev if x["k"] == "store" and x["loc"].startswith(nm + "+")]
    if len(st) != 1:
        return c.fail("the queue unlock does not hand the lock to its successor exactly once", nx[-1])
    if not delta(vf, qfields(st[0]["new"])["ver"], 63):
        c.fail("the successor is handed a version that is not newer", st[0])
    if "+%d[" % c.off_version not in st[0]["loc"]:
        c.fail("the queue unlock stores the grant into the wrong field of the successor", st[0])
    if st[0]["ord"] not in REL:
        c.fail("the hand-over uses an ordering weaker than release", st[0])
    return "ok"


# node-level wrappers of OptiQL: lock operation plus a test of the node's obsolete mark (bit 29 of the tag word)
def obsolete_seen(p):
    """value of the obsolete bit in the last read of the tag word on this path, None if not read"""
    ls = [e for e in p.ev if e["loc"] == "tag" and e["k"] == "load"]
    if not ls:
        return None
    b = []
    for s in ls[-1]["new"]:
        b += [s] * s[1]
    s = b[29]
    return s[2] if s[0] == "c" else "?"


def c_on(inner, unlock_on_obsolete):
    def k(c, p):
        if flag(p) == 0:
            if obsolete_seen(p) != 0:
                return c.fail("the operation on the node succeeds without establishing that the node is not obsolete", (p.ev or [None])[-1])
            tag = max(i for i, e in enumerate(p.ev) if e["loc"] == "tag" and e["k"] == "load")
            if unlock_on_obsolete and not any(e["k"] == "rmw" for e in p.ev[:tag] if e["loc"] == "word"):
                return c.fail("the node is tested for being obsolete before it is locked", p.ev[tag])
            return inner(c, p)
        if flag(p) == 1:
            if not unlock_on_obsolete:
                c.net0(p, "a failed attempt")
                return "fail"
            ws = p.writes()
            if not ws:
                return "fail"
            # locked, found obsolete: the lock must have been given up again
            if not obsolete_seen(p):
                return c.fail("the attempt fails after taking the lock although the node is not obsolete", ws[-1])
            released = False
            if len(ws) == 2 and c.f(ws[1]["new"])["lock"] == ("c", 0):
                released = True
            if len(ws) == 1:
                i = p.ev.index(ws[0])
                released = any(x["k"] == "store" and x["loc"] not in ("word", "tag", "q.next", "q.version") and i < j for j, x in enumerate(p.ev)
                               if "q.next" in x["loc"] or x["loc"].startswith("q.next"))
            if not released:
                c.fail("an attempt that finds the node obsolete returns with the lock held", ws[-1])
            return "fail"
        c.fail("the restart flag is left undetermined", (p.ev or [None])[-1])
    return k


# ---- readers/writer words -------------------------------------------------------------------------
def retv(p):
    return const(p.ret) if p.ret is not None else None


def c_rd(c, p, can_fail):
    if can_fail and retv(p) == 0:
        c.net0(p, "a failed read-lock attempt")
        return "fail"
    if can_fail and retv(p) != 1:
        return c.fail("the read-lock attempt returns an undetermined result", (p.ev or [None])[-1])
    ws = c.settle(p, "read lock")
    if len(ws) != 1:
        return c.fail("the read lock succeeds after %d changes of the word instead of exactly one" % len(ws), (ws or p.ev or [None])[-1])
    e = ws[0]
    c.trans(e, "the read lock", same=("lock",), plus={"readers": 1}, order="acq")
    if e["k"] != "rmw":
        c.fail("the read lock counts itself without an atomic step", e)
    # the writer bit must have been seen clear, in the transition itself or in a later read of the word
    i = p.ev.index(e)
    seen = [x for x in p.ev[i:] if x["loc"] == "word"]
    last = seen[-1]
    if c.f(last["old"])["lock"] != ("c", 0):
        c.fail("the read lock succeeds although a writer may hold the lock", last)
    return "ok"


def c_rd_unlock(c, p):
    e = c.one(p, "the read unlock")
    if e:
        c.trans(e, "the read unlock", same=("lock",), plus={"readers": -1}, order="rel")
    return "ok"


def c_wr(c, p, can_fail):
    if can_fail and retv(p) == 0:
        c.net0(p, "a failed write-lock attempt")
        return "fail"
    if can_fail and retv(p) != 1:
        return c.fail("the write-lock attempt returns an undetermined result", (p.ev or [None])[-1])
    e = c.one(p, "the write lock")
    if not e:
        return
    if e["k"] != "rmw":
        c.fail("the write lock is taken without an atomic step", e)
    c.trans(e, "the write lock", old={"lock": 0}, new={"lock": 1}, same=("readers",), order="acq")
    last = [x for x in p.ev if x["loc"] == "word"][-1]
    f = c.f(last["old"] if last is e else last["new"])
    if f["readers"] != ("c", 0):
        c.fail("the write lock succeeds although readers may still hold the lock", last)
    return "ok"


def c_wr_unlock(c, p):
    e = c.one(p, "the write unlock")
    if e:
        c.trans(e, "the write unlock", new={"lock": 0}, same=("readers",), order="rel")
    return "ok"


def c_w2r(c, p):
    e = c.one(p, "the downgrade")
    if e:
        c.trans(e, "the downgrade", new={"lock": 0}, plus={"readers": 1}, order="rel")
    return "ok"


def c_calls(good, allowed=()):
    def k(c, p):
        cs = [e for e in p.ev if e["k"] == "call" and ("pthread" in e["what"] or "rwlock" in e["what"])]
        if not any(e["what"] == good for e in cs) or any(e["what"] != good for e in cs):
            c.fail("the operation does not perform exactly '%s' on the underlying lock (%s)" % (good, ", ".join(e["what"] for e in cs) or "nothing"), (cs or p.ev or [None])[-1])
        elif not all(e["loc"].split(";")[0].startswith("l+") or e["loc"].split(";")[0] == "word" for e in cs):
            c.fail("the operation acts on a different lock object", cs[-1])
        return "ok"
    return k


def c_spin_try(c, p):
    cs = [e for e in p.ev if e["k"] == "call" and "pthread" in e["what"]]
    if len(cs) != 1 or cs[0]["what"] != "pthread_spin_trylock":
        c.fail("the attempt does not perform exactly one pthread_spin_trylock", (cs or [None])[-1])
        return "ok"
    z = not any(const(b) == 0 or const(a) == 0 for a, b in p.raw.get("neq", []) if str(a).find("pthread_spin_trylock") >= 0 or str(b).find("pthread_spin_trylock") >= 0)
    if (retv(p) == 1) != z:
        c.fail("the attempt's result does not report whether the lock was taken", cs[-1])
    return "ok" if retv(p) == 1 else "fail"


def c_taslock(c, p):
    ws = p.writes()
    if not ws or ws[-1]["k"] != "rmw":
        return c.fail("the spin lock is taken without an atomic step", (p.ev or [None])[-1])
    e = ws[-1]
    if any(c.f(x["new"])["set"] != ("c", 1) for x in ws):
        c.fail("an attempt at the spin lock clears it", e)
    c.trans(e, "the spin lock", old={"set": 0}, new={"set": 1}, order="acq")
    return "ok"


def c_tasunlock(c, p):
    ws = p.writes()
    if len(ws) != 1 or c.f(ws[0]["new"])["set"] != ("c", 0):
        return c.fail("the spin unlock does not clear the lock", (ws or p.ev or [None])[-1])
    if ws[0]["ord"] not in REL:
        c.fail("the spin unlock uses an ordering weaker than release", ws[0])
    return "ok"


def c_hot_try(c, p):
    ws = p.writes()
    ob = [e for e in p.ev if e["loc"] == "obs" and e["k"] == "load"]
    held = bool(ws) and c.f(ws[-1]["new"])["set"] == ("c", 1)
    if retv(p) == 1:
        if not held or c.f(ws[-1]["old"])["set"] != ("c", 0):
            return c.fail("locking a node reports success without holding its lock", (ws or p.ev or [None])[-1])
        i = p.ev.index(ws[-1])
        late = [e for e in p.ev[i:] if e["loc"] == "obs" and e["k"] == "load"]
        if not late or const(late[-1]["new"]) not in (0,) and fields("bit8", late[-1]["new"])["set"] != ("c", 0):
            c.fail("locking a node reports success without testing under the lock that it is not obsolete", ws[-1])
        return "ok"
    if retv(p) == 0:
        if held:
            c.fail("an attempt to lock a node fails with the lock held", ws[-1])
        return "fail"
    c.fail("locking a node returns an undetermined result", (p.ev or [None])[-1])


def c_setbit(c, p):
    ws = p.writes()
    if len(ws) != 1 or c.f(ws[0]["new"])["set"] != ("c", 1) and const(ws[0]["new"]) != 1:
        c.fail("marking a node obsolete does not set its mark", (ws or p.ev or [None])[-1])
    elif ws[0]["ord"] not in REL:
        c.fail("marking a node obsolete uses an ordering weaker than release", ws[0])
    return "ok"


def c_query(field, lay=None, nz=False):
    """the result reports exactly whether the field is non-zero in the word read last"""
    def k(c, p):
        ls = p.loads()
        if not ls or p.writes():
            return c.fail("the test does not just read the word", (p.ev or [None])[-1])
        f = c.f(ls[-1]["new"])[field]
        r = retv(p)
        if nz:
            z = f == ("c", 0)
            if r == 0 and not z or r == 1 and z or r not in (0, 1):
                c.fail("the test does not report the '%s' field of the word" % field, ls[-1])
        else:
            if f is not None and f[0] == "c":
                if r != f[1]:
                    c.fail("the test does not report the '%s' field of the word" % field, ls[-1])
            elif p.ret is None or [s[2:4] for s in p.ret if s[0] == "s"] != [[f[1], f[2]]]:
                c.fail("the test does not report the '%s' field of the word" % field, ls[-1])
        return "ok"
    return k


# ---- Masstree node versions -----------------------------------------------------------------------
MREST = ("vinsert", "vsplit", "deleted", "root", "leaf")


def fence_after(p, e):
    i = p.ev.index(e)
    return any(x["k"] == "fence" for x in p.ev[i + 1:])


def fence_before(p, e):
    i = p.ev.index(e)
    return any(x["k"] == "fence" for x in p.ev[:i])


def c_m_stable(c, p):
    c.net0(p, "taking a stable version")
    ls = p.loads()
    f = c.f(p.ret)
    if f["inserting"] != ("c", 0) or f["splitting"] != ("c", 0):
        c.fail("a version is reported stable while an insertion or split may be in progress", (ls or [None])[-1])
    elif f != c.f(ls[-1]["new"]):
        c.fail("the stable version is not the word that was read", ls[-1])
    elif not fence_after(p, ls[-1]):
        c.fail("node contents may be read before the stable version (no fence after the read)", ls[-1])
    return "ok"


def c_m_changed(allowed):
    def k(c, p):
        ls = p.loads()
        if not ls or p.writes():
            return c.fail("the test does not just read the word", (p.ev or [None])[-1])
        a, b = c.f(ls[-1]["new"]), c.f(p.args["o"])
        if retv(p) == 0:
            for x in a:
                if x in allowed or x == "unused":
                    continue
                if a[x] is None or a[x] != b[x]:
                    c.fail("the node is reported unchanged although its '%s' field may have changed" % x, ls[-1])
                    break
            return "ok"
        if retv(p) == 1:
            return "fail"
        c.fail("the test returns an undetermined result", ls[-1])
    return k


def c_m_fchanged(allowed):
    inner = c_m_changed(allowed)

    def k(c, p):
        r = inner(c, p)
        ls = p.loads()
        if ls and not fence_before(p, ls[-1]):
            c.fail("node contents may be read after the version comparison (no fence before the read)", ls[-1])
        return r
    return k


def c_m_lock(ret):
    def k(c, p):
        if ret == "bool" and retv(p) == 0:
            c.net0(p, "a failed lock attempt")
            return "fail"
        e = c.one(p, "taking the lock")
        if not e:
            return
        if e["k"] != "rmw":
            c.fail("the lock is taken without an atomic step", e)
        c.trans(e, "taking the lock", old={"lock": 0}, new={"lock": 1}, same=MREST + ("inserting", "splitting"), order="acq")
        if ret == "word" and c.f(p.ret) != c.f(e["new"]):
            c.fail("locking reports a version that is not the word it installed", e)
        return "ok"
    return k


def c_m_unlock(c, p):
    e = c.one(p, "the unlock")
    if not e:
        return
    o, n = c.f(e["old"]), c.f(e["new"])
    c.trans(e, "the unlock", new={"lock": 0, "inserting": 0, "splitting": 0}, same=("deleted", "leaf"))
    if o["splitting"] == ("c", 1):
        c.trans(e, "the unlock after a split", changed=("vsplit",))
    elif o["splitting"] == ("c", 0):
        c.trans(e, "the unlock", same=("root", "vsplit"))
        if o["inserting"] == ("c", 1):
            c.trans(e, "the unlock after an insertion", changed=("vinsert",))
        elif o["inserting"] == ("c", 0):
            c.trans(e, "the unlock", same=("vinsert",))
        else:
            c.fail("the unlock does not distinguish whether an insertion was announced", e)
    else:
        c.fail("the unlock does not distinguish whether a split was announced", e)
    if not fence_before(p, e):
        c.fail("node changes may become visible after the unlock (no fence before the store)", e)
    return "ok"


def c_m_mark(new, same, fence=True):
    def k(c, p):
        ws = c.settle(p, "the mark")
        if not ws:
            return c.one(p, "the mark") and None
        nw = new(p) if callable(new) else new
        for w in ws[:-1]:  # the mark may be set piecemeal while the node stays locked
            c.trans(w, "the mark", same=[x for x in same if x not in nw])
        e = dict(ws[-1], old=ws[0]["old"])
        c.trans(e, "the mark", new=nw, same=[x for x in same if x not in nw])
        if fence and not fence_after(p, ws[-1]):
            c.fail("node changes may become visible before the mark (no fence after the store)", e)
        return "ok"
    return k


MALL = MREST + ("inserting", "splitting", "lock")


def m_change(p):
    s = const(p.args["s"])
    if s is None:
        s = {0: 0, 1: 1}.get(next((x[2] for x in p.args["s"] if x[0] == "c"), None))
    return {"splitting": 1} if s == 1 else {"inserting": 1}


# ---- FB+-tree control word ------------------------------------------------------------------------
FALL = ("del", "lock", "sibling", "leaf", "order", "split", "ver")


def c_fb_begin(c, p):
    c.net0(p, "taking a version")
    ls = p.loads()
    f = c.f(ls[-1]["new"])
    r = c.f(p.ret)
    if f["lock"] != ("c", 0):
        c.fail("a version is handed out for a locked node", ls[-1])
    if r["ver"] is None or r["ver"] != f["ver"]:
        c.fail("the version handed out is not the one in the word", ls[-1])
    if ls[-1]["ord"] not in ACQ:
        c.fail("a version is read with ordering weaker than acquire", ls[-1])
    return "ok"


def c_fb_end(c, p):
    c.net0(p, "a validation")
    ls = p.loads()
    if retv(p) == 0:
        return "fail"
    if retv(p) != 1:
        return c.fail("a validation returns an undetermined result", (ls or [None])[-1])
    f, a = c.f(ls[-1]["new"]), c.f(p.args["v"])
    if f["lock"] != ("c", 0):
        c.fail("a validation succeeds although the node may be locked", ls[-1])
    if f["ver"] is None or f["ver"] != a["ver"]:
        c.fail("a validation succeeds although the version may have changed", ls[-1])
    if ls[-1]["ord"] not in ACQ:
        c.fail("a validation reads the word with ordering weaker than acquire", ls[-1])
    return "ok"


def c_fb_lock(c, p):
    e = c.one(p, "taking the lock")
    if e:
        if e["k"] != "rmw":
            c.fail("the lock is taken without an atomic step", e)
        c.trans(e, "taking the lock", old={"lock": 0}, new={"lock": 1}, same=[x for x in FALL if x != "lock"], order="acq")
    return "ok"


def c_fb_op(new=None, plus=None, order=None):
    def k(c, p):
        e = c.one(p, "the operation")
        if e:
            if e["k"] != "rmw":
                c.fail("the word is changed without an atomic step", e)
            c.trans(e, "the operation", new=new or {}, plus=plus or {}, same=[x for x in FALL if x not in (new or {}) and x not in (plus or {})], order=order)
        return "ok"
    return k


def flagmem(n=1):
    return {"name": "r", "mem": [{"cell": "flag", "off": 0, "init": 0, "w": 8}]}


def wordarg(name, lay, field=None, stable=False, pre=None, off=0, extra=None):
    c = {"cell": "word", "layout": lay, "off": off, "stable": stable}
    if field:
        del c["off"]
        c["field"] = field
    if pre:
        c["pre"] = pre
    return {"name": name, "cells": [c] + (extra or [])}


def vmem(lay, pre):
    return {"name": "vp", "mem": [{"cell": "v", "off": 0, "layout": lay, "pre": pre}]}


UNL = {"lock": 0, "obsolete": 0}
HELD = {"lock": 1, "obsolete": 0}


def olc(prefix, n):
    W = lambda **k: wordarg("n", "olc", n, **k)
    return [
        (prefix + "_begin", [W(), flagmem()], c_begin, {"ok", "fail"}),
        (prefix + "_check", [W(), {"name": "v", "layout": "olc", "pre": UNL}, flagmem()], c_validate, {"ok", "fail"}),
        (prefix + "_end", [W(), {"name": "v", "layout": "olc", "pre": UNL}, flagmem()], c_validate, {"ok", "fail"}),
        (prefix + "_upgrade", [W(), vmem("olc", UNL), flagmem()], c_upgrade, {"ok", "fail"}),
        (prefix + "_lock", [W(), flagmem()], c_lock_olc, {"ok", "fail"}),
        (prefix + "_unlock", [W(stable=True, pre=HELD)], c_unlock_olc, {"ok"}),
        (prefix + "_unlock_obsolete", [W(stable=True, pre=HELD)], lambda c, p: c_unlock_olc(c, p, 1), {"ok"}),
    ]


QC = lambda st=False, pre=None: [{"cell": "q.next", "field": "omcs_impl::OMCSQNode.next_", "layout": "qver"},
                                 {"cell": "q.version", "field": "omcs_impl::OMCSQNode.version_", "layout": "qver", "stable": st}]
QARG = lambda st=False: {"name": "q", "cells": QC(st)}
OQ = lambda **k: wordarg("n", "oq", "omcs_impl::OMCSLock.tail_", **k)
ONW = lambda **k: wordarg("n", "oq", None, off=0, extra=[{"cell": "tag", "field": "ART_OLC_OptiQL::N.prefixCount", "layout": "tag"}], **k)
VA = {"name": "v", "layout": "oq", "pre": {"lock": 0}}

MW = lambda **k: wordarg("v", "mass", "nodeversion.v_", **k)
MH = {"lock": 1, "unused": 0}
FB = lambda **k: wordarg("c", "fb", "FeatureBTree::Control.control_", **k)
RW = lambda lay, **k: wordarg("l", lay, None, **k)

GROUPS = [
    dict(name="artolc", tu="art.cpp", flags=["-I@REPO@"], lay="olc", entries=olc("vp_art", "ART_OLC::N.typeVersionLockObsolete")),
    dict(name="btreeolc", tu="btree.cpp", flags=["-I@REPO@"], lay="olc", entries=olc("vp_bt", "btreeolc::OptLock.typeVersionLockObsolete")),
    dict(name="btreeolc_child_layout", tu="btree_child_layout.cpp", flags=["-I@REPO@"], lay="olc", entries=olc("vp_bt", "btreeolc::OptLock.typeVersionLockObsolete")),
    dict(name="optiql", tu="optiql.cpp", flags=["-I@REPO@", "-I@REPO@/OptiQL", "-DOMCS_LOCK", "-DIS_CONTEXTFUL"], lay="oq", entries=[
        ("vp_oq_try_begin", [OQ(), flagmem()], c_begin, {"ok", "fail"}),
        ("vp_oq_begin", [OQ()], c_oq_begin_spin, {"ok"}),
        ("vp_oq_check", [OQ(), VA, flagmem()], c_validate, {"ok", "fail"}),
        ("vp_oq_end", [OQ(), VA, flagmem()], c_validate, {"ok", "fail"}),
        ("vp_oq_lock", [OQ()], c_oq_lock, {"ok"}),
        ("vp_oq_upgrade", [OQ(), vmem("oq", {"lock": 0}), flagmem()], c_upgrade, {"ok", "fail"}),
        ("vp_oq_unlock", [OQ(stable=True, pre={"lock": 1})], c_oq_unlock, {"ok"}),
        ("vp_oq_lock_q", [OQ(), QARG()], c_oq_lock_q, {"ok"}),
        ("vp_oq_upgrade_q", [OQ(), vmem("oq", {"lock": 0}), QARG(), flagmem()], c_oq_upgrade_q, {"ok", "fail"}),
        ("vp_oq_unlock_q", [OQ(), QARG(True)], c_oq_unlock_q, {"ok"}),
        ("vp_oq_islocked", [OQ()], c_query("lock"), {"ok"}),
        ("vp_on_begin", [ONW(), flagmem()], c_on(c_begin, False), {"ok", "fail"}),
        ("vp_on_check", [ONW(), VA, flagmem()], c_on(c_validate, False), {"ok", "fail"}),
        ("vp_on_end", [ONW(), VA, flagmem()], c_on(c_validate, False), {"ok", "fail"}),
        ("vp_on_upgrade_q", [ONW(), vmem("oq", {"lock": 0}), QARG(), flagmem()], c_on(c_oq_upgrade_q, True), {"ok", "fail"}),
        ("vp_on_lock_q", [ONW(), QARG(), flagmem()], c_on(c_oq_lock_q, True), {"ok", "fail"}),
        ("vp_on_unlock_q", [ONW(), QARG(True)], c_oq_unlock_q, {"ok"}),
    ]),
    dict(name="wormhole", tu="wormhole.c", lang="c", flags=["-I@REPO@", "-march=x86-64-v4"], lay="rw32", entries=[
        ("vp_wh_tryr", [RW("rw32")], lambda c, p: c_rd(c, p, True), {"ok", "fail"}),
        ("vp_wh_tryr_lp", [RW("rw32")], lambda c, p: c_rd(c, p, True), {"ok", "fail"}),
        ("vp_wh_tryr_nr", [RW("rw32"), {"name": "nr"}], lambda c, p: c_rd(c, p, True), {"ok", "fail"}),
        ("vp_wh_lockr", [RW("rw32")], lambda c, p: c_rd(c, p, False), {"ok"}),
        ("vp_wh_unlockr", [RW("rw32")], c_rd_unlock, {"ok"}),
        ("vp_wh_tryw", [RW("rw32")], lambda c, p: c_wr(c, p, True), {"ok", "fail"}),
        ("vp_wh_tryw_nr", [RW("rw32"), {"name": "nr"}], lambda c, p: c_wr(c, p, True), {"ok", "fail"}),
        ("vp_wh_lockw", [RW("rw32")], lambda c, p: c_wr(c, p, False), {"ok"}),
        ("vp_wh_tryw_hp", [RW("rw32")], lambda c, p: c_wr(c, p, True), {"ok", "fail"}),
        ("vp_wh_tryw_hp_nr", [RW("rw32"), {"name": "nr"}], lambda c, p: c_wr(c, p, True), {"ok", "fail"}),
        ("vp_wh_lockw_hp", [RW("rw32")], lambda c, p: c_wr(c, p, False), {"ok"}),
        ("vp_wh_unlockw", [RW("rw32", stable=True, pre={"lock": 1})], c_wr_unlock, {"ok"}),
        ("vp_wh_w2r", [RW("rw32", stable=True, pre={"lock": 1})], c_w2r, {"ok"}),
        ("vp_wh_spin_lock", [{"name": "l"}], c_calls("pthread_spin_lock"), {"ok"}),
        ("vp_wh_spin_try", [{"name": "l"}], c_spin_try, {"ok", "fail"}),
        ("vp_wh_spin_unlock", [{"name": "l"}], c_calls("pthread_spin_unlock"), {"ok"}),
    ]),
    dict(name="blink", tu="blink.cpp", flags=["-I@REPO@"], lay="rw64", entries=[
        ("vp_rs_lockr", [wordarg("l", "rw64", "RSpinSharedLatch.flag_")], lambda c, p: c_rd(c, p, False), {"ok"}),
        ("vp_rs_unlockr", [wordarg("l", "rw64", "RSpinSharedLatch.flag_")], c_rd_unlock, {"ok"}),
        ("vp_rs_lockw", [wordarg("l", "rw64", "RSpinSharedLatch.flag_")], lambda c, p: c_wr(c, p, False), {"ok"}),
        ("vp_rs_unlockw", [wordarg("l", "rw64", "RSpinSharedLatch.flag_", stable=True, pre={"lock": 1})], c_wr_unlock, {"ok"}),
        ("vp_sm_lockr", [{"name": "l"}], c_calls("pthread_rwlock_rdlock"), {"ok"}),
        ("vp_sm_unlockr", [{"name": "l"}], c_calls("pthread_rwlock_unlock"), {"ok"}),
        ("vp_sm_lockw", [{"name": "l"}], c_calls("pthread_rwlock_wrlock"), {"ok"}),
        ("vp_sm_unlockw", [{"name": "l"}], c_calls("pthread_rwlock_unlock"), {"ok"}),
    ]),
    dict(name="hot", tu="hot.cpp", overlay="hot", flags=["-I@REPO@", "-I@OVERLAY@/HOT/include", "-march=x86-64-v4"], lay="bit8", entries=[
        ("vp_hs_lock", [wordarg("l", "bit8", None)], c_taslock, {"ok"}),
        ("vp_hs_unlock", [wordarg("l", "bit8", None)], c_tasunlock, {"ok"}),
        ("vp_hn_try", [wordarg("n", "bit8", "hot::rowex::HOTRowexNodeBase.mLock", extra=[{"cell": "obs", "field": "hot::rowex::HOTRowexNodeBase.mIsObsolete", "layout": "bit8"}])], c_hot_try, {"ok", "fail"}),
        ("vp_hn_unlock", [wordarg("n", "bit8", "hot::rowex::HOTRowexNodeBase.mLock")], c_tasunlock, {"ok"}),
        ("vp_hn_obsolete", [wordarg("n", "bit8", "hot::rowex::HOTRowexNodeBase.mIsObsolete")], c_setbit, {"ok"}),
        ("vp_hn_isobsolete", [wordarg("n", "bit8", "hot::rowex::HOTRowexNodeBase.mIsObsolete")], c_query("set"), {"ok"}),
    ]),
    dict(name="masstree", tu="mass.cpp", flags=["-I@REPO@/MassTree", "-include", "config.h"], lay="mass", entries=[
        ("vp_mv_stable", [MW()], c_m_stable, {"ok"}),
        ("vp_mv_changed", [MW(), {"name": "o", "layout": "mass", "pre": {"unused": 0}}], c_m_fchanged(("lock",)), {"ok", "fail"}),
        ("vp_mv_split", [MW(), {"name": "o", "layout": "mass", "pre": {"unused": 0}}], c_m_fchanged(("lock", "inserting", "splitting", "vinsert")), {"ok", "fail"}),
        ("vp_mv_simple_split", [MW(), {"name": "o", "layout": "mass", "pre": {"unused": 0}}], c_m_changed(("lock", "inserting", "splitting", "vinsert")), {"ok", "fail"}),
        ("vp_mv_lock", [MW()], c_m_lock("word"), {"ok"}),
        ("vp_mv_lock_at", [MW(), {"name": "o", "layout": "mass", "pre": {"unused": 0}}], c_m_lock("word"), {"ok"}),
        ("vp_mv_try", [MW()], c_m_lock("bool"), {"ok", "fail"}),
        ("vp_mv_unlock", [MW(stable=True, pre=MH)], c_m_unlock, {"ok"}),
        ("vp_mv_unlock_at", [MW(stable=True, pre=MH)], c_m_unlock, {"ok"}),
        ("vp_mv_mark_insert", [MW(stable=True, pre=MH)], c_m_mark({"inserting": 1}, MALL), {"ok"}),
        ("vp_mv_mark_insert_at", [MW(stable=True, pre=MH)], c_m_mark({"inserting": 1}, MALL), {"ok"}),
        ("vp_mv_mark_split", [MW(stable=True, pre=MH)], c_m_mark({"splitting": 1}, MALL), {"ok"}),
        ("vp_mv_mark_change", [MW(stable=True, pre=dict(MH, inserting=0, splitting=0)), {"name": "s"}], c_m_mark(m_change, MALL), {"ok"}),
        ("vp_mv_mark_deleted", [MW(stable=True, pre=MH)], c_m_mark({"deleted": 1, "splitting": 1}, MALL), {"ok"}),
        ("vp_mv_mark_deleted_tree", [MW(stable=True, pre=dict(MH, root=1))], c_m_mark({"deleted": 1}, MALL), {"ok"}),
        ("vp_mv_mark_root", [MW(stable=True, pre={"unused": 0})], c_m_mark({"root": 1}, MALL), {"ok"}),
        ("vp_mv_mark_nonroot", [MW(stable=True, pre=MH)], c_m_mark({"root": 0}, MALL), {"ok"}),
        ("vp_mv_locked", [MW()], c_query("lock", nz=True), {"ok"}),
        ("vp_mv_deleted", [MW()], c_query("deleted", nz=True), {"ok"}),
        ("vp_mv_isleaf", [MW()], c_query("leaf", nz=True), {"ok"}),
        ("vp_mv_inserting", [MW()], c_query("inserting", nz=True), {"ok"}),
        ("vp_mv_splitting", [MW()], c_query("splitting", nz=True), {"ok"}),
        ("vp_mv_is_root", [MW()], c_query("root", nz=True), {"ok"}),
    ]),
    dict(name="fbtree", tu="fb.cpp", flags=["-I@REPO@", "-I@V@/stubs", "-DAVX2_ENABLE", "-march=x86-64-v4"], lay="fb", entries=[
        ("vp_fb_begin", [FB()], c_fb_begin, {"ok"}),
        ("vp_fb_end", [FB(), {"name": "v", "layout": "fb", "pre": {"del": 0, "lock": 0, "sibling": 0, "leaf": 0, "order": 0, "z": 0, "split": 0}}], c_fb_end, {"ok", "fail"}),
        ("vp_fb_lock", [FB()], c_fb_lock, {"ok"}),
        ("vp_fb_unlock", [FB(stable=True, pre={"lock": 1})], c_fb_op(new={"lock": 0}, order="rel"), {"ok"}),
        ("vp_fb_update", [FB(stable=True, pre={"lock": 1})], c_fb_op(plus={"ver": 1}), {"ok"}),
        ("vp_fb_bsplit", [FB(stable=True)], c_fb_op(plus={"split": 1}), {"ok"}),
        ("vp_fb_esplit", [FB(stable=True)], c_fb_op(plus={"split": -1}), {"ok"}),
        ("vp_fb_delete", [FB(stable=True, pre={"del": 0, "lock": 1})], c_fb_op(new={"del": 1}), {"ok"}),
        ("vp_fb_set_order", [FB(stable=True, pre={"order": 0, "lock": 1})], c_fb_op(new={"order": 1}), {"ok"}),
        ("vp_fb_clear_order", [FB(stable=True, pre={"order": 1, "lock": 1})], c_fb_op(new={"order": 0}), {"ok"}),
        ("vp_fb_set_sibling", [FB(stable=True, pre={"sibling": 0, "lock": 1})], c_fb_op(new={"sibling": 1}), {"ok"}),
        ("vp_fb_clear_sibling", [FB(stable=True, pre={"sibling": 1, "lock": 1})], c_fb_op(new={"sibling": 0}), {"ok"}),
        ("vp_fb_deleted", [FB()], c_query("del", nz=True), {"ok"}),
        ("vp_fb_is_leaf", [FB()], c_query("leaf", nz=True), {"ok"}),
        ("vp_fb_has_sibling", [FB()], c_query("sibling", nz=True), {"ok"}),
        ("vp_fb_is_splitting", [FB()], c_query("split", nz=True), {"ok"}),
        ("vp_fb_ordered", [FB()], c_query("order", nz=True), {"ok"}),
    ]),
]


def analyse(g, tier):
    tmp = os.path.join(BUILD, "tmp", "locks.%s.%d" % (g["name"], os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        bc = os.path.join(tmp, "u.bc")
        c = g.get("lang") == "c"
        ov = overlay(g["overlay"], tmp) if g.get("overlay") else ""
        cmd = [CLANG if c else CLANGXX, "-std=gnu11" if c else "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-w", "-DNDEBUG", "-fstandalone-debug"]
        cmd += [f.replace("@REPO@", REPO).replace("@V@", V).replace("@OVERLAY@", ov) for f in g["flags"]]
        r = subprocess.run(cmd + [os.path.join(V, "tu", "locks", g["tu"]), "-o", bc], capture_output=True, text=True)
        if r.returncode:
            return g, None, "lock unit %s does not compile:\n%s" % (g["name"], r.stderr[-2000:])
        spec = {"layouts": LAY, "loops": 4 if tier == "thorough" else 3, "opaque": [], "entries": [{"fn": e[0], "args": e[1]} for e in g["entries"]]}
        sp = os.path.join(tmp, "spec.json")
        json.dump(spec, open(sp, "w"))
        r = subprocess.run([os.path.join(BUILD, "words"), "--spec", sp, "--bc", bc, "--out", os.path.join(tmp, "o.json")], capture_output=True, text=True, timeout=800)
        if r.returncode:
            return g, None, "words failed on %s: %s" % (g["name"], r.stderr[-800:])
        return g, json.load(open(os.path.join(tmp, "o.json"))), None
    finally:
        subprocess.run(["rm", "-rf", tmp])


def run(prop, repo, v, tier):
    out = {"problems": [], "coverage": {}, "obligations": 0, "entries": [], "samples": [], "findings": []}
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda g: analyse(g, tier), GROUPS))
    for g, rs, err in res:
        if err:
            out["problems"].append(err)
            continue
        by = {r["fn"]: r for r in rs}
        cov = {}
        for fn, args, contract, need in g["entries"]:
            r = by[fn]
            if "error" in r:
                out["problems"].append("%s/%s: %s" % (g["name"], fn, r["error"]))
                continue
            seen, n, msgs = set(), 0, {}
            for raw in r["paths"]:
                p = P(g, raw)
                if p.cut:
                    continue
                n += 1
                c = Ck(g["lay"])
                c.off_version = 128
                # the version given by reference, as it was on entry
                raw["v0"] = entry_version(raw, args)
                k = contract(c, p)
                if k:
                    seen.add(k)
                for m, f, l in c.bad:
                    msgs.setdefault(m, (f, l))
            if n and not msgs:
                for k in need - seen:
                    msgs["no path of the operation %s" % ("succeeds" if k == "ok" else "reports failure")] = ("", 0)
            if not n:
                msgs["no path of the operation returns"] = ("", 0)
            for m, (f, l) in sorted(msgs.items()):
                out["findings"].append({"rule": "lock-word", "unit": "locks_" + g["name"], "entry": fn, "func": fn[3:], "file": f, "line": l, "msg": m, "chain": fn})
            cov[fn[3:]] = n
            out["obligations"] += n
            out["entries"].append("locks_%s:%s" % (g["name"], fn[3:]))
        out["coverage"][g["name"]] = cov
    return out


def entry_version(raw, args):
    for a in args:
        for m in a.get("mem", []):
            if m.get("cell") == "v":
                pre, segs = m.get("pre", {}), []
                for f, w in LAY[m["layout"]]:
                    if f in pre:
                        segs += [["c", 1, pre[f] >> i & 1] for i in range(w)]
                    else:
                        segs.append(["s", w, "v." + f, 0, 0, w])
                return resolve(raw, segs)
    return None


def resolve(raw, segs):
    """apply the path's equalities (recorded by the analyser in 'subst') to an entry value"""
    sub = raw.get("sub", {})
    out = []
    for s in segs:
        if s[0] == "s" and s[2] in sub:
            out += sub[s[2]]
        else:
            out.append(s)
    return out
