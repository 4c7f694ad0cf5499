"""Things the property clients share."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

import build  # noqa: E402
import engine  # noqa: E402
from engine import UB, Client, Engine, Fork, N, Outcome, Panic, Prog, St, Stop, Unknown, is_num  # noqa: E402
from num import add, sub  # noqa: E402

_progs = {}


def prog(kind=""):
    d = build.dump("speedups" if kind is True else kind or "")
    if d not in _progs:
        _progs[d] = Prog(d)
    return _progs[d]


class Viol(UB):
    """a property is violated on this path"""

    def __init__(self, prop, msg, key=None):
        UB.__init__(self, msg)
        self.msg = msg
        self.prop = prop
        self.key = key or "rule"

    def __str__(self):
        return "[%s:%s] %s" % (self.prop, self.key, self.msg)


class Report:
    """violations and counters of a run"""

    def __init__(self, prop):
        self.prop = prop
        self.viol = {}  # key -> (message, detail)
        self.notes = {}
        self.count = {}
        self.samples = []
        self.t0 = time.time()

    def add(self, key, msg, detail=""):
        if key not in self.viol:
            self.viol[key] = (msg, detail)
            # there is something to report: do not go on for long
            if engine.DEADLINE is not None:
                engine.DEADLINE = min(engine.DEADLINE, time.monotonic() + 90)

    def inc(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)


def func_of(where):
    """the function part of a location, without the line"""
    return where.rsplit(" (", 1)[0]


def choose(st, n):
    """which of n outcomes does this call of user code have?"""
    k = ("choice",)
    if k in st.exp:
        i = st.exp.pop(k)
        return i
    if n == 1:
        return 0
    raise Fork([[("exp", k, i)] for i in range(n)])


def vindex(E, ty, name):
    for i, v in enumerate(E.T[ty]["v"]):
        if v[0] == name:
            return i
    raise Unknown("no variant %s in %s" % (name, E.T[ty]["p"]))


def vname(E, ty, v):
    return E.T[ty]["v"][v[1]][0]


def vfield(E, ty, name, i=0):
    return E.T[ty]["v"][vindex(E, ty, name)][2][i][1]


def enumv(E, ty, name, *fields):
    return ("E", vindex(E, ty, name), tuple(fields))


def expand1(E, st, v):
    if type(v) is tuple and v[0] == "O":
        x = E.T[v[1]]
        if x["k"] == "adt" and x["ak"] == "enum":
            E.variant_of(st, v)
        return E.expand(st, v)
    return v


def same(E, st, a, b):
    """are these two values the same, modulo the expansion of opaque values?"""
    if a == b:
        return True
    if type(a) is not tuple or type(b) is not tuple:
        return False
    if a[0] == "O" and b[0] != "O":
        a, b = b, a
    if b[0] == "O" and a[0] in ("E", "S", "A", "V", "M", "R"):
        x = E.T[b[1]]
        if x["k"] == "adt" and x["ak"] == "enum":
            if a[0] != "E" or st.exp.get(b[2]) != a[1]:
                return False
        try:
            b = E.expand(st, b)
        except (Unknown, Fork, UB):
            return False
        return same(E, st, a, b)
    if a[0] == b[0] and a[0] in ("S", "A") and len(a[1]) == len(b[1]):
        return all(same(E, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == b[0] == "E" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return all(same(E, st, x, y) for x, y in zip(a[2], b[2]))
    if a[0] == b[0] == "R":
        return same_ref(E, st, a, b)
    if a[0] == b[0] and a[0] in ("V", "M"):
        try:
            return same(E, st, E.content(st, a[1]), E.content(st, b[1]))
        except UB:
            return False
    return False


def normproj(p):
    p = tuple(p)
    while p and type(p[-1]) is tuple and p[-1][0] == "@" and p[-1][1] == 0:
        p = p[:-1]
    return p


def same_ref(E, st, a, b):
    if a[1] == b[1] and normproj(a[2]) == normproj(b[2]):
        ma = a[3] if a[3] is None or a[3][0] == "len" else None
        mb = b[3] if b[3] is None or b[3][0] == "len" else None
        return ma == mb or (ma and mb and sub(ma[1], mb[1]) == 0)
    return False


def prefix_of(a, b):
    return len(a) <= len(b) and b[: len(a)] == a


def names_in(v, out):
    if type(v) is tuple or type(v) is list or type(v) is frozenset:
        for e in v:
            names_in(e, out)
    elif type(v) is N:
        out.add(v)


def reachable(E, st, roots):
    """the names of everything reachable from some values"""
    out = set()
    seen = set()
    work = []

    def walk(v):
        if type(v) is tuple:
            if v and v[0] == "R" and len(v) == 4:
                work.append(v[1])
            elif v and v[0] in ("V", "M") and len(v) == 2:
                work.append(v[1])
            for e in v:
                walk(e)
        elif type(v) is N:
            out.add(v)
        elif type(v) is frozenset:
            for e in v:
                walk(e)

    for r in roots:
        walk(r)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        names_in(a, out)
        v = st.heap.get(a)
        if v is not None:
            walk(v)
    return out, seen


def pick(rep, prop, src, other=("UB",)):
    """takes over the violations of one property from a shared exploration"""
    for k, v in src.viol.items():
        p, _, rest = k.partition(":")
        if p == prop or p in other:
            rep.add(rest, *v)


def sub_eval(P, st, root, args):
    """evaluates a small library function on a copy of the state"""
    E2 = Engine(P)
    s2 = st.copy()
    s2.frames = []
    s2.exp.pop(("choice",), None)
    E2.start(s2, root, args)
    outs = E2.run(s2)
    return outs


def trace_of(E, o, n=60):
    ev = o.st.events()[-n:]
    return [str(e) for e in ev]


def findings():
    """known findings: {(property, key)}; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(build.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                pid, rest = line[len("finding: property="):].split(" ", 1)
                key, _, what = rest.partition(" :: ")
                out[(pid, key.strip())] = what.strip()
    return out


def finish(rep, tier, seed, level, explanation, coverage, assumptions=()):
    """writes the evidence, prints the verdict and returns the exit code"""
    pid = rep.prop
    known = findings()
    new, old = [], []
    for k, (msg, detail) in sorted(rep.viol.items()):
        if k[:4] in ("C03:", "C16:") and k[:3] != pid:
            continue  # decided by that property's own check
        (old if (pid, k) in known else new).append((k, msg, detail))
    ev = os.path.join(build.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"explanation": explanation, "tree": build.tree_hash()}
    cov.update(rep.count)
    cov.update(coverage)
    cov["samples"] = rep.samples[:12]
    if rep.notes:
        cov["undecided"] = {str(k): v for k, v in list(rep.notes.items())[:40]}
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(new),
    }
    doc["known_findings"] = [k for k, _, _ in old]
    tmp = os.path.join(ev, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(ev, pid + ".json"))
    for k, msg, _ in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, k)] or msg))
    rd = os.path.join(build.WORK, "replay")
    os.makedirs(rd, exist_ok=True)
    for i, (k, msg, detail) in enumerate(new[:20]):
        rp = os.path.join(rd, "%s-%d.txt" % (pid, i))
        with open(rp, "w") as f:
            f.write("property: %s\nrule: %s\n%s\n\n%s\n" % (pid, k, msg, detail))
        print("  %s: %s" % (k, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if not new:
        print("%s: held (%s)" % (pid, ", ".join("%s %s" % (v, k) for k, v in cov.items() if type(v) is int)[:300]))
    return 1 if new else 0
