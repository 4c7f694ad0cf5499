"""Abstract interpreter over the monomorphic MIR dumped by the analyzer.

The domain: enum variants and memory shapes are tracked exactly, numbers by linear terms over
symbols with sets of intervals (num.py), values the analysis does not look into are opaque tokens
which are expanded on demand.  All feasible branches are followed; at loop heads states are made
canonical and compared with the ones seen before, until a fixpoint is reached.
"""
import json
import os
import sys
import time

from num import ATOMTY, FULL, INF, Dom, add, is_num, iv_compl, iv_from, iv_has, iv_inter, iv_size, iv_values, lin, mk as mklin, scale, sub

sys.setrecursionlimit(20000)


class N:
    """a fresh name"""

    __slots__ = ("n", "label")
    count = 0

    def __init__(self, label=""):
        N.count += 1
        self.n = N.count
        self.label = label

    def __repr__(self):
        return "%s#%06d" % (self.label, self.n)


class Fork(Exception):
    def __init__(self, refs):
        self.refs = refs


class UB(Exception):
    pass


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


class Stop(Exception):
    """ends the path (infeasible, or cut by a client)"""


DEADLINE = None  # no run goes on after this time
UNINIT = ("U",)
UNIT = ("S", ())
NIL = ("k", "nil")  # the buffer of empty vectors


class Outcome:
    __slots__ = ("kind", "st", "val", "msg", "where")

    def __init__(self, kind, st, val=None, msg="", where=""):
        self.kind = kind
        self.st = st
        self.val = val
        self.msg = msg
        self.where = where

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.val, self.msg, self.where)


class St:
    __slots__ = ("heap", "frames", "dom", "exp", "ghost", "ev", "freed", "unw", "aux", "hist")

    def __init__(self):
        self.heap = {}
        self.frames = []
        self.dom = {}
        self.exp = {}
        self.ghost = None
        self.ev = None
        self.freed = frozenset()
        self.unw = False
        self.aux = None

    def copy(self):
        s = St.__new__(St)
        s.heap = self.heap.copy()
        s.frames = [f[:] for f in self.frames]
        s.dom = self.dom.copy()
        s.exp = self.exp.copy()
        s.ghost = self.ghost
        s.ev = self.ev
        s.freed = self.freed
        s.unw = self.unw
        s.aux = self.aux
        return s

    def events(self):
        r = []
        e = self.ev
        while e is not None:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def refine(self, refs):
        for r in refs:
            if r[0] == "dom":
                if not Dom.constrain(self.dom, r[1], r[2]):
                    return False
            elif r[0] == "exp":
                self.exp[r[1]] = r[2]
            elif r[0] == "call":
                if r[1](self) is False:
                    return False
        return True


INT_RANGE = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    INT_RANGE["u" + _n] = (0, (1 << _b) - 1)
    INT_RANGE["i" + _n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
CHAR_DOM = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Prog:
    def __init__(self, d):
        D = json.load(open(os.path.join(d, "fixture.json")))
        self.dir = d
        self.T = D["types"]
        self.I = D["insts"]
        self.VT = D["vtables"]
        self.roots = D["roots"]
        self.impls = D.get("impls")
        self.byfull = {}
        self.byname = {}
        for i, x in enumerate(self.I):
            self.byfull.setdefault(x.get("full") or x["name"], []).append(i)
            self.byname.setdefault(x["name"], []).append(i)
        self.typ = {}
        for i, t in enumerate(self.T):
            self.typ.setdefault(t["p"], []).append(i)
        self._rep = {}
        self._tf = {}
        self._live = {}
        self._heads = {}
        self._cplace = {}
        self._const = {}
        self.constmem = {NIL: ("A", ())}
        self._inh = {}
        self._drops = {}
        self.omty = {}
        self.vt_methods = [dict((a, b) for a, b in v[2]) for v in self.VT]
        # fields which are never written are not an issue; opaque types
        self.opq = set()
        for i, t in enumerate(self.T):
            if t["k"] == "adt" and (t["path"].startswith("opq::")):
                self.opq.add(i)

    def root(self, name):
        r = self.byname.get("roots::" + name) or self.byname.get(name)
        if not r:
            raise Unknown("no root " + name)
        return r[0]

    def ret(self, name):
        return self.I[self.root(name)]["locals"][0]

    def argty(self, name, i=0):
        return self.I[self.root(name)]["locals"][i + 1]

    def find_ty(self, p):
        return self.typ[p][0]

    # ---- representation
    def tfield(self, t):
        """the field which represents a wrapper type (None: the type is not a wrapper)"""
        r = self._tf.get(t, 0)
        if r != 0:
            return r
        x = self.T[t]
        r = None
        if x["k"] == "adt" and x.get("v"):
            if x.get("box"):
                r = 0
            elif x["path"].endswith("MaybeUninit"):
                r = 1
            elif (x.get("transparent") or x.get("mdrop")) and x["ak"] == "struct" and t not in self.opq:
                fs = x["v"][0][2]
                nz = [i for i, f in enumerate(fs) if self.T[f[1]].get("sz", 1) != 0]
                if len(nz) == 1:
                    r = nz[0]
                elif not nz:
                    np = [i for i, f in enumerate(fs) if "PhantomData" not in self.T[f[1]]["p"]]
                    if np:
                        r = np[0]
        self._tf[t] = r
        return r

    def rep(self, t):
        r = self._rep.get(t)
        if r is not None:
            return r
        r = t
        while True:
            x = self.T[r]
            if x["k"] == "pat":
                r = x["e"]
                continue
            f = self.tfield(r)
            if f is None:
                break
            r = x["v"][0][2][f][1]
        self._rep[t] = r
        return r

    def pointee(self, t):
        """pointee of a reference, raw pointer or box (after rep)"""
        r = self.T[self.rep(t)]
        return r["e"] if r["k"] in ("ref", "ptr") else None

    def is_box(self, t):
        while True:
            x = self.T[t]
            if x["k"] == "adt" and x.get("box"):
                return True
            return False

    def fields(self, t, variant=0):
        x = self.T[t]
        if x["k"] in ("tuple", "closure"):
            return x["f"]
        if x["k"] == "adt":
            return [f[1] for f in x["v"][variant][2]]
        return []

    def inhabited(self, t):
        r = self._inh.get(t)
        if r is not None:
            return r
        self._inh[t] = True
        x = self.T[t]
        r = True
        if x["k"] == "never":
            r = False
        elif x["k"] in ("tuple", "closure"):
            r = all(self.inhabited(f) for f in x["f"])
        elif x["k"] == "adt" and x.get("v") is not None and x["ak"] != "union":
            if x["ak"] == "enum":
                r = any(all(self.inhabited(f[1]) for f in v[2]) for v in x["v"])
            else:
                r = all(self.inhabited(f[1]) for f in x["v"][0][2])
        self._inh[t] = r
        return r

    def variants(self, t):
        return [i for i, v in enumerate(self.T[t]["v"]) if all(self.inhabited(f[1]) for f in v[2])]

    def pretty(self, t):
        return self.T[t]["p"]

    def iname(self, i):
        x = self.I[i]
        return x.get("full") or x["name"]

    # ---- control flow facts
    def heads(self, i):
        r = self._heads.get(i)
        if r is None:
            blocks = self.I[i]["blocks"]
            r = set()
            color = {}
            stack = [(0, iter(succs(blocks[0][1])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(succs(blocks[s][1]))))
                        break
                    if c == 1:
                        r.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            self._heads[i] = r
        return r

    def live(self, i):
        """live locals at the entry of each block (locals whose address is taken: always)"""
        r = self._live.get(i)
        if r is not None:
            return r
        x = self.I[i]
        blocks = x["blocks"]
        n = len(x["locals"])
        addr = set()
        use = []
        dfn = []

        def pl(p, u):
            u.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    u.add(e[1])

        def op(o, u):
            if o[0] in ("c", "m"):
                pl(o[1], u)

        def rvv(rv, u):
            k = rv[0]
            if k in ("use",):
                op(rv[1], u)
            elif k == "rep":
                op(rv[1], u)
            elif k in ("ref", "raw"):
                if "*" not in rv[2]:
                    addr.add(rv[2][0])
                pl(rv[2], u)
            elif k == "cast":
                op(rv[2], u)
            elif k == "bin":
                op(rv[2], u)
                op(rv[3], u)
            elif k == "un":
                op(rv[2], u)
            elif k == "discr":
                pl(rv[1], u)
            elif k in ("aarr", "atup"):
                for o in rv[1]:
                    op(o, u)
            elif k == "aadt":
                for o in rv[3]:
                    op(o, u)
            elif k in ("acl", "aptr"):
                for o in rv[2]:
                    op(o, u)

        for blk in blocks:
            u, d = set(), set()

            def seq(us, ds):
                for y in us:
                    if y not in d:
                        u.add(y)
                d.update(ds)

            for s in blk[0]:
                if s[0] == "=":
                    us = set()
                    rvv(s[2], us)
                    if len(s[1]) == 1:
                        seq(us, {s[1][0]})
                    else:
                        pl(s[1], us)
                        seq(us, ())
                elif s[0] == "sd":
                    us = set()
                    pl(s[1], us)
                    seq(us, ())
                elif s[0] in ("dead", "live"):
                    seq((), {s[1]})
                elif s[0] in ("assume",):
                    us = set()
                    op(s[1], us)
                    seq(us, ())
                elif s[0] == "cno":
                    us = set()
                    for o in s[1:]:
                        op(o, us)
                    seq(us, ())
            t = blk[1]
            us = set()
            if t[0] == "switch":
                op(t[1], us)
            elif t[0] == "ret":
                us.add(0)
            elif t[0] == "drop":
                pl(t[1], us)
            elif t[0] == "call":
                if t[1][0] == "ptr":
                    op(t[1][1], us)
                for a in t[2]:
                    op(a, us)
                if len(t[3]) > 1:
                    pl(t[3], us)
            elif t[0] == "assert":
                op(t[1], us)
            seq(us, {t[3][0]} if t[0] == "call" and len(t[3]) == 1 else ())
            use.append(u)
            dfn.append(d)
        lv = [set() for _ in blocks]
        ch = True
        while ch:
            ch = False
            for b in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in succs(blocks[b][1], True):
                    o |= lv[s]
                nv = use[b] | (o - dfn[b])
                if nv != lv[b]:
                    lv[b] = nv
                    ch = True
        r = [sorted(l | addr) for l in lv]
        self._live[i] = r
        return r


def succs(t, unwind=True):
    k = t[0]
    r = []
    if k == "goto":
        r = [t[1]]
    elif k == "switch":
        r = [x[1] for x in t[3]]
        if t[4] is not None:
            r.append(t[4])
    elif k == "drop":
        r = [t[3]]
        if unwind and len(t) > 4 and t[4] is not None:
            r.append(t[4])
    elif k == "call":
        if t[4] is not None:
            r = [t[4]]
        if unwind and t[5] is not None:
            r.append(t[5])
    elif k == "assert":
        r = [t[4]]
        if unwind and t[5] is not None:
            r.append(t[5])
    return r


class Call:
    __slots__ = ("inst", "name", "full", "args", "argtys", "destty", "x", "item", "tok", "recv")

    def __init__(self, inst, x, args, argtys, destty):
        self.inst = inst
        self.x = x
        self.name = x["name"] if x else ""
        self.full = (x.get("full") or x["name"]) if x else ""
        self.args = args
        self.argtys = argtys
        self.destty = destty
        self.item = x.get("trait_item") if x else None
        self.tok = None
        self.recv = None


class Client:
    """hooks; the default treats user code as able to do anything"""

    models = {}
    touch = None  # called with the token of opaque memory which is accessed

    def on_opaque(self, E, st, call):
        return E.fresh(st, call.destty, call.name)

    def on_virtual(self, E, st, call):
        return E.fresh(st, call.destty, call.item)

    def on_drop(self, E, st, ty, tok):
        return None

    def widen(self, E, st):
        pass

    def on_ret(self, E, st):
        pass

    def drop_whole(self, E, st, v):
        """drop an unexpanded enum value as one thing?"""
        return False

    def lenof(self, E, st, v):
        raise Unknown("length of " + str(v[0]))

    def seqget(self, E, st, v, idx):
        raise Unknown("element of " + str(v[0]))

    def opaque_call(self, E, st, fv, call):
        raise Unknown("call of an opaque function pointer")


class Engine:
    def __init__(self, prog, client=None, models=None):
        self.P = prog
        self.T = prog.T
        self.I = prog.I
        self.C = client or Client()
        import models as M

        self.M = dict(M.MODELS)
        if models:
            self.M.update(models)
        self.M.update(self.C.models)
        self.PM = M.PREFIX
        self.steps = 0
        self.budget = 3_000_000
        self.stats = {"steps": 0, "states": 0, "paths": 0, "forks": 0}
        self.funcs = set()
        self.unknown = {}
        self.unwind = False
        self.maxframes = 120
        self._mcache = {}

    # ---------------------------------------------------------------- opaque values
    def fresh(self, st, ty, label=""):
        return self.mk(ty, (N(label),))

    def mk(self, ty, tok):
        P = self.P
        t = P.rep(ty)
        x = self.T[t]
        k = x["k"]
        if k in ("int", "uint"):
            r = INT_RANGE[x["n"]]
            ATOMTY.setdefault(tok, r)
            return lin(tok)
        if k == "bool":
            ATOMTY.setdefault(tok, (0, 1))
            return lin(tok)
        if k == "char":
            ATOMTY.setdefault(tok, CHAR_DOM)
            return lin(tok)
        if k == "float":
            return ("fy", tok)
        if k in ("ref", "ptr"):
            e = x["e"]
            if self.T[P.rep(e)].get("sz") == 0 and self.T[P.rep(e)]["k"] != "dyn":
                pass
            om = ("om", tok)
            P.omty[om] = e
            return ("R", om, (), self.mkmeta(e, tok))
        if k == "tuple" and not x["f"]:
            return UNIT
        if k == "fndef":
            return ("F", x.get("inst"))
        if k == "fnptr":
            return ("F", ("ofn", tok))
        if k == "never":
            raise Stop("never")
        if k == "adt" and t not in P.opq and x["ak"] == "struct" and not x["v"][0][2]:
            return UNIT
        if k == "array" and x["len"] == 0:
            return ("A", ())
        if k == "slice":
            n = tok + ("len",)
            ATOMTY.setdefault(n, (0, (1 << 63) - 1))
            return ("OA", x["e"], tok, lin(n))
        if k == "str":
            n = tok + ("len",)
            ATOMTY.setdefault(n, (0, (1 << 63) - 1))
            return ("OA", None, tok, lin(n))
        return ("O", t, tok)

    def mkmeta(self, e, tok):
        P = self.P
        while True:
            x = self.T[P.rep(e)]
            if x["k"] in ("slice", "str"):
                n = tok + ("*", "len")
                ATOMTY.setdefault(n, (0, (1 << 63) - 1))
                return ("len", lin(n))
            if x["k"] == "dyn":
                return ("dyn", tok)
            return None

    def variant_of(self, st, v):
        """the variant of an enum value (forks on opaque ones)"""
        if v[0] == "E":
            return v[1]
        if v[0] == "O":
            t = v[1]
            x = self.T[t]
            if x["k"] == "adt" and x["ak"] == "enum":
                r = st.exp.get(v[2])
                if r is not None:
                    return r
                vs = self.P.variants(t)
                if len(vs) == 1:
                    return vs[0]
                if not vs:
                    raise Stop("uninhabited")
                raise Fork([[("exp", v[2], k)] for k in vs])
        if v[0] == "U":
            raise UB("use of an uninitialised enum")
        raise Unknown("discriminant of %s" % (v[0],))

    def expand(self, st, v):
        """one level of an opaque value"""
        t, tok = v[1], v[2]
        x = self.T[t]
        k = x["k"]
        if t in self.P.opq:
            raise Unknown("expansion of the opaque type %s" % x["p"])
        if k in ("tuple", "closure"):
            return ("S", tuple(self.mk(f, tok + (i,)) for i, f in enumerate(x["f"])))
        if k == "array":
            if x["len"] > 256:
                return ("OA", x["e"], tok, x["len"])
            return ("A", tuple(self.mk(x["e"], tok + (i,)) for i in range(x["len"])))
        if k == "adt":
            if x["ak"] == "enum":
                vi = self.variant_of(st, v)
                return ("E", vi, tuple(self.mk(f[1], tok + ((vi, i),)) for i, f in enumerate(x["v"][vi][2])))
            if x["ak"] == "struct":
                h = self.expand_model(st, v, x)
                if h is not None:
                    return h
                return ("S", tuple(self.mk(f[1], tok + (i,)) for i, f in enumerate(x["v"][0][2])))
        raise Unknown("expansion of %s" % x["p"])

    def expand_model(self, st, v, x):
        if x["path"] == "std::vec::Vec":
            om = ("om", v[2] + ("buf",))
            ety = self.P.T[v[1]]["args"][0]
            self.P.omty[om] = ("vecbuf", ety)
            return ("V", om)
        if x["path"] in MAPS:
            om = ("om", v[2] + ("buf",))
            a = self.P.T[v[1]]["args"]
            self.P.omty[om] = ("pairs", a[0], a[1] if MAPS[x["path"]] else None)
            return ("M", om)
        return None

    # ---------------------------------------------------------------- memory
    def content(self, st, alloc):
        v = st.heap.get(alloc)
        if v is not None:
            return v
        if type(alloc) is tuple:
            if alloc[0] == "k":
                return self.P.constmem[alloc]
            if alloc[0] == "om":
                if alloc in st.freed:
                    raise UB("access to memory which was freed (%s)" % self.tokname(alloc[1]))
                if self.C.touch is not None:
                    self.C.touch(st, alloc[1])
                e = self.P.omty[alloc]
                if type(e) is tuple:  # vector or map buffer
                    tok = alloc[1]
                    n = tok + ("len",)
                    ATOMTY.setdefault(n, (0, (1 << 59) - 1))
                    v = ("OA", e[1] if e[0] == "vecbuf" else e, tok, lin(n))
                else:
                    x = self.T[self.P.rep(e)]
                    tok = alloc[1] + ("*",)
                    if x["k"] == "dyn":
                        v = ("O", self.P.rep(e), tok)
                    else:
                        v = self.mk(e, tok)
                return v
            if alloc[0] == "zst":
                return UNIT
        raise UB("access to memory which is not valid any more")

    def tokname(self, tok):
        return "/".join(str(x) for x in tok)

    def load(self, st, alloc, proj):
        v = self.content(st, alloc)
        for p in proj:
            v = self.sub_value(st, v, p)
        return v

    def sub_value(self, st, v, p):
        while True:
            if type(v) is int:
                raise Unknown("projection of a number")
            k = v[0]
            if type(p) is int:
                if k == "S":
                    if p >= len(v[1]):
                        raise Unknown("field out of range")
                    return v[1][p]
                if k == "E":
                    if p >= len(v[2]):
                        raise UB("field of another variant")
                    return v[2][p]
                if k == "A":
                    if p < 0 or p >= len(v[1]):
                        raise UB("element %d of %d" % (p, len(v[1])))
                    return v[1][p]
                if k == "HA":
                    return self.haget(st, v, p)
            elif p[0] == "@":
                if p[1] == 0:
                    return v
                return self.subseq(st, v, p[1])
            elif p[0] == "ix":
                if k == "A":
                    n = len(v[1])
                    s = Dom.set_of(st.dom, p[1])
                    if not s:
                        raise Stop("empty")
                    if iv_size(s) > 64:
                        if s[0][0] >= n or s[-1][1] < 0:
                            raise UB("index out of bounds")
                        if all(type(e) is tuple and e[0] == "fl" for e in v[1]):
                            # a table of floats stays a function of the index
                            return ("fy", ("sel", ftab(v[1]), p[1]))
                        opts = [[("dom", p[1], ((i, i),))] for i in range(n)]
                        raise Fork(opts + [[("dom", p[1], iv_compl(((0, n - 1),)))]])
                    vals = list(iv_values(s))
                    if len(vals) == 1:
                        p = vals[0]
                        continue
                    # a table of numbers stays a function of the index
                    if all(0 <= i < n and type(v[1][i]) is int for i in vals) and len(p[1][1]) == 1:
                        r = self.tabulate(st, lambda i: v[1][i], p[1])
                        if r is not None:
                            return r
                    raise Fork([[("dom", p[1], ((i, i),))] for i in vals])
            if k == "OA":
                idx = p if type(p) is int else p[1]
                return self.oaget(st, v, idx)
            if k == "HA":
                return self.haget(st, v, p[1])
            if k == "O":
                v = self.expand(st, v)
                continue
            if k == "U":
                return UNINIT
            if k == "V" and p == 1:
                return self.lenof(st, self.content(st, v[1]))
            if k == "V" and p == 0:
                # RawVec { inner: RawVecInner { ptr, cap, alloc }, marker }
                return ("S", (("S", (("R", v[1], (0,), None), UNINIT, UNIT)), UNIT))
            r = self.C.seqget(self, st, v, p if type(p) is int else p[1])
            return r

    def haget(self, st, v, idx):
        """element of a list with a hidden prefix: ('HA', hidden length, elements)"""
        i = sub(idx, v[1])
        if type(i) is int:
            if 0 <= i < len(v[2]):
                return v[2][i]
            if i >= len(v[2]):
                raise UB("element behind the end")
        if getattr(self.C, "hidden_unknown", False):
            raise Unknown("an element of the general part is accessed")
        raise Stop("hidden")

    def oaget(self, st, v, idx):
        if len(v) > 4:
            for i, x in v[4]:
                if i == idx:
                    return x
        lo, hi = Dom.range(st.dom, sub(v[3], idx))
        if hi <= 0:
            raise UB("element behind the end")
        ety = v[1]
        if ety is None:
            tok = v[2] + (idx,)
            ATOMTY.setdefault(tok, (0, 255))
            return lin(tok)
        if type(ety) is tuple:  # ('pairs', key type, value type)
            return ("S", tuple(UNIT if t is None else self.mk(t, v[2] + (idx, i)) for i, t in enumerate(ety[1:])))
        return self.mk(ety, v[2] + (idx,))

    def subseq(self, st, v, off):
        if v[0] == "A" and type(off) is int:
            return ("A", v[1][off:])
        raise Unknown("subsequence")

    def store(self, st, alloc, proj, val):
        if not proj:
            if type(alloc) is tuple and alloc[0] == "k":
                raise Unknown("write to a constant")
            if alloc not in st.heap:
                self.content(st, alloc)
            st.heap[alloc] = val
            return
        v = self.content(st, alloc)
        st.heap[alloc] = self.upd(st, v, proj, 0, val)

    def upd(self, st, v, proj, i, val):
        if i == len(proj):
            return val
        p = proj[i]
        if type(v) is int:
            raise Unknown("write into a number")
        k = v[0]
        if k == "O":
            v = self.expand(st, v)
            k = v[0]
        if type(p) is int:
            if k == "S":
                f = v[1]
                return ("S", f[:p] + (self.upd(st, f[p], proj, i + 1, val),) + f[p + 1 :])
            if k == "E":
                f = v[2]
                return ("E", v[1], f[:p] + (self.upd(st, f[p], proj, i + 1, val),) + f[p + 1 :])
            if k == "A":
                f = v[1]
                if p >= len(f) or p < 0:
                    raise UB("write behind the end")
                return ("A", f[:p] + (self.upd(st, f[p], proj, i + 1, val),) + f[p + 1 :])
            if k == "HA":
                self.haget(st, v, p)
                j = sub(p, v[1])
                f = v[2]
                return ("HA", v[1], f[:j] + (self.upd(st, f[j], proj, i + 1, val),) + f[j + 1 :])
            if k == "OA":
                return self.oaset(st, v, p, self.upd(st, self.oaget(st, v, p), proj, i + 1, val))
            if k == "U":
                # field-wise initialisation
                n = p + 1
                return ("S", tuple(self.upd(st, UNINIT, proj, i + 1, val) if j == p else UNINIT for j in range(max(n, 16))))
        elif p[0] == "ix":
            if k == "A":
                s = Dom.set_of(st.dom, p[1])
                if s and iv_size(s) == 1:
                    return self.upd(st, v, proj[:i] + (s[0][0],) + proj[i + 1 :], i, val)
                if s and iv_size(s) <= 64:
                    raise Fork([[("dom", p[1], ((x, x),))] for x in iv_values(s)])
            if k == "HA":
                self.haget(st, v, p[1])
                j = sub(p[1], v[1])
                f = v[2]
                return ("HA", v[1], f[:j] + (self.upd(st, f[j], proj, i + 1, val),) + f[j + 1 :])
            if k == "OA":
                return self.oaset(st, v, p[1], self.upd(st, self.oaget(st, v, p[1]), proj, i + 1, val))
        raise Unknown("write into %s" % (k,))

    def oaset(self, st, v, idx, val):
        o = tuple(x for x in (v[4] if len(v) > 4 else ()) if x[0] != idx)
        return ("OA", v[1], v[2], v[3], ((idx, val),) + o)

    def alloc(self, st, val, label="h"):
        a = N(label)
        st.heap[a] = val
        return a

    def free(self, st, alloc, what="memory"):
        if type(alloc) is tuple and alloc[0] == "om":
            if alloc in st.freed:
                raise UB("%s freed twice" % what)
            st.freed = st.freed | {alloc}
            st.heap.pop(alloc, None)
            return
        if type(alloc) is tuple and alloc[0] in ("k", "zst"):
            if alloc[0] == "zst" or alloc == NIL:
                return
            raise UB("a constant is freed")
        if alloc not in st.heap:
            raise UB("%s freed twice" % what)
        del st.heap[alloc]

    # ---------------------------------------------------------------- places and operands
    def cplace(self, x, p):
        """projections with types: (local, steps)"""
        key = id(p)
        r = self.P._cplace.get(key)
        if r is not None:
            return r[0]
        P = self.P
        ty = x["locals"][p[0]]
        steps = []
        var = 0
        for e in p[1:]:
            if e == "*":
                steps.append(("*",))
                ty = P.pointee(ty)
            elif e[0] == "f":
                t = self.T[ty]
                if t["k"] == "pat" or (P.tfield(ty) is not None and P.tfield(ty) == e[1]):
                    pass
                elif P.tfield(ty) is not None:
                    if t["ak"] == "union":
                        pass
                    else:
                        steps.append(("z", e[2]))
                else:
                    steps.append(("f", e[1]))
                ty = e[2]
            elif e[0] == "i":
                steps.append(("i", e[1]))
                ty = self.T[P.rep(ty)]["e"]
            elif e[0] == "c":
                steps.append(("c", e[1], e[3]))
                ty = self.T[P.rep(ty)]["e"]
            elif e[0] == "s":
                steps.append(("s", e[1], e[2], e[3]))
            elif e[0] == "v":
                pass
            else:
                steps.append(("?",))
        r = (p[0], tuple(steps), ty)
        self.P._cplace[key] = (r, p)
        return r

    def ploc(self, st, fr, x, p):
        local, steps, ty = self.cplace(x, p)
        alloc = (fr[1], local)
        if not steps:
            return alloc, (), None
        proj = ()
        meta = None
        for s in steps:
            o = s[0]
            if o == "f":
                proj = proj + (s[1],)
            elif o == "*":
                v = self.load(st, alloc, proj)
                if v[0] == "O":
                    v = self.expand(st, v)
                if v[0] != "R":
                    if v[0] == "U":
                        raise UB("dereference of an uninitialised pointer")
                    raise Unknown("dereference of %s" % (v[0],))
                alloc, proj, meta = v[1], v[2], v[3]
            elif o == "i":
                idx = self.load(st, (fr[1], s[1]), ())
                proj = self.index(st, proj, idx)
                meta = None
            elif o == "c":
                if s[2]:
                    n = self.seqlen(st, alloc, proj, meta)
                    idx = sub(n, s[1])
                else:
                    idx = s[1]
                proj = self.index(st, proj, idx)
                meta = None
            elif o == "s":
                n = self.seqlen(st, alloc, proj, meta)
                frm = s[1]
                to = sub(n, s[2]) if s[3] else s[2]
                base = self.index(st, proj, frm)
                proj = base[:-1] + (("@", frm if not (proj and type(proj[-1]) is tuple and proj[-1][0] == "@") else add(proj[-1][1], frm)),)
                meta = ("len", sub(to, frm))
            elif o == "z":
                alloc, proj, meta = ("zst",), (), None
            else:
                raise Unknown("projection")
        return alloc, proj, meta

    def index(self, st, proj, idx):
        if proj and type(proj[-1]) is tuple and proj[-1][0] == "@":
            idx = add(proj[-1][1], idx)
            proj = proj[:-1]
        if type(idx) is int:
            return proj + (idx,)
        return proj + (("ix", idx),)

    def seqlen(self, st, alloc, proj, meta):
        if meta and meta[0] == "len":
            return meta[1]
        v = self.load(st, alloc, proj)
        return self.lenof(st, v)

    def lenof(self, st, v):
        if v[0] == "A":
            return len(v[1])
        if v[0] == "OA":
            return v[3]
        if v[0] == "HA":
            return add(v[1], len(v[2]))
        if v[0] == "O" and self.T[v[1]]["k"] == "array":
            return self.T[v[1]]["len"]
        return self.C.lenof(self, st, v)

    def operand(self, st, fr, x, o):
        k = o[0]
        if k == "c" or k == "m":
            p = o[1]
            if len(p) == 1:
                v = st.heap.get((fr[1], p[0]))
                if v is None:
                    raise UB("read of dead local _%d" % p[0])
                return v
            a, proj, meta = self.ploc(st, fr, x, p)
            return self.load(st, a, proj)
        if k == "k":
            return self.const(o)
        if k == "rc":
            return 1 if o[1].startswith("Overflow") else 0
        raise Unknown("operand " + k)

    def const(self, o):
        r = self.P._const.get(id(o))
        if r is None:
            r = (self.decode(o[1], o[2]), o)
            self.P._const[id(o)] = r
        return r[0]

    def decode(self, ty, c):
        P = self.P
        k = c[0]
        if k == "i":
            return c[1]
        if k == "fl":
            return ("fl", c[1], self.T[P.rep(ty)].get("n"))
        if k == "fn":
            return ("F", self.T[ty].get("inst"))
        if k == "tup":
            fs = self.T[ty]["f"]
            return ("S", tuple(self.decode(t, v) for t, v in zip(fs, c[1])))
        if k == "cl":
            fs = self.T[ty]["f"]
            return ("S", tuple(self.decode(t, v) for t, v in zip(fs, c[1])))
        if k == "arr":
            x = self.T[P.rep(ty)]
            e = x["e"]
            return ("A", tuple(self.decode(e, v) for v in c[1]))
        if k == "str":
            return ("A", tuple(c[1]))
        if k == "adt":
            t = c[1]
            f = P.tfield(t)
            if f is not None:
                if f >= len(c[3]):
                    return UNIT
                return self.decode(P.fields(t)[f], c[3][f])
            x = self.T[t]
            fs = [self.decode(ft[1], v) for ft, v in zip(x["v"][c[2]][2], c[3])]
            if x["ak"] == "enum":
                return ("E", c[2], tuple(fs))
            if x["path"] == "std::vec::Vec":
                return ("V", NIL)
            return ("S", tuple(fs))
        if k == "ref":
            key = ("k", c[1])
            if key not in P.constmem:
                P.constmem[key] = self.decode(c[3], c[4])
            meta = None
            if c[4][0] in ("str", "arr") and self.T[P.rep(c[3])]["k"] in ("str", "slice"):
                meta = ("len", len(c[4][1]))
            return ("R", key, (), meta)
        if k == "dynref":
            key = ("k", c[1])
            vt = c[3]
            if key not in P.constmem:
                P.constmem[key] = self.decode(self.P.VT[vt][0], c[4])
            return ("R", key, (), ("vt", vt))
        if k == "ptrint":
            return ("P", c[1])
        if k == "tid":
            return ("S", (("tid", P.rep(c[1])),))
        if k == "?":
            return self.zst(ty, c)
        raise Unknown("constant " + k)

    def zst(self, ty, c=None):
        P = self.P
        t = P.rep(ty)
        x = self.T[t]
        if x.get("sz") == 0:
            if x["k"] == "array":
                if x["len"] == 0:
                    return ("A", ())
                return ("A", (self.zst(x["e"]),) * x["len"])
            if x["k"] == "adt" and x["ak"] == "struct":
                return ("S", tuple(self.zst(f) for f in P.fields(t)))
            if x["k"] in ("tuple", "closure"):
                return ("S", tuple(self.zst(f) for f in x["f"]))
            if x["k"] == "fndef":
                return ("F", x.get("inst"))
        if x["k"] == "adt" and x["path"].endswith("TypeId"):
            return ("?", "typeid")
        return ("?", x["p"])

    # ---------------------------------------------------------------- arithmetic
    def tabulate(self, st, f, *vs):
        """f of numbers which depend on a single symbol of a small domain"""
        base = None
        for v in vs:
            if type(v) is int:
                continue
            for at, _ in v[1]:
                b = at[1] if at[0] == "tb" else at
                if base is None:
                    base = b
                elif base != b:
                    return None
        if base is None:
            return f(*vs)
        s = Dom.atom(st.dom, base)
        if iv_size(s) > 300:
            return None
        rows = []
        allc = set()
        for x in iv_values(s):
            vals = []
            ok = True
            for v in vs:
                if type(v) is int:
                    vals.append(v)
                    continue
                r = v[2]
                for at, co in v[1]:
                    if at[0] == "tb":
                        y = dict(at[2]).get(x)
                        if y is None:
                            ok = False
                            break
                        r += co * y
                    else:
                        r += co * x
                vals.append(r)
            if not ok:
                continue
            y = f(*vals)
            if y is None:
                return None
            rows.append((x, y))
            allc.add(y)
        if not rows:
            raise Stop("empty")
        if len(allc) == 1:
            return rows[0][1]
        # linear?
        (x0, y0), (x1, y1) = rows[0], rows[1]
        if (y1 - y0) % (x1 - x0) == 0:
            k = (y1 - y0) // (x1 - x0)
            if all(y == y0 + k * (x - x0) for x, y in rows):
                return add(scale(lin(base), k), y0 - k * x0)
        return lin(("tb", base, tuple(rows)))

    def fnatom(self, name, args, lo, hi):
        at = ("fn", name) + tuple(args)
        ATOMTY.setdefault(at, (lo, hi))
        return lin(at)

    def trange(self, ty):
        x = self.T[self.P.rep(ty)]
        if x["k"] in ("int", "uint"):
            return INT_RANGE[x["n"]]
        if x["k"] == "bool":
            return 0, 1
        if x["k"] == "char":
            return 0, 0x10FFFF
        raise Unknown("range of " + x["p"])

    def wrap(self, st, v, ty):
        """reduces a mathematical integer to the type: (value, overflowed?)"""
        lo, hi = self.trange(ty)
        m = hi - lo + 1
        if type(v) is int:
            if lo <= v <= hi:
                return v, 0
            return (v - lo) % m + lo, 1
        a, b = Dom.range(st.dom, v)
        if a > b:
            raise Stop("empty")
        if lo <= a and b <= hi:
            return v, 0
        ka, kb = (a - lo) // m, (b - lo) // m
        if ka == kb:
            return add(v, -ka * m), 1
        if kb - ka <= 3:
            refs = []
            for k in range(ka, kb + 1):
                refs.append([("dom", v, ((lo + k * m, hi + k * m),))])
            raise Fork(refs)
        t = self.tabulate(st, lambda x: (x - lo) % m + lo, v)
        if t is not None:
            ov = self.tabulate(st, lambda x: 0 if lo <= x <= hi else 1, v)
            if type(ov) is int:
                return t, ov
        ds = Dom.set_of(st.dom, v)
        refs = [[("dom", v, ((x, y),))] for x, y in ((-INF, lo - 1), (lo, hi), (hi + 1, INF)) if iv_inter(ds, ((x, y),))]
        if len(refs) > 1:
            raise Fork(refs)
        raise _Wide(v, lo, hi)

    def trunc(self, st, v, ty):
        try:
            return self.wrap(st, v, ty)[0]
        except _Wide as w:
            return self.fnatom("trunc", (v, self.T[self.P.rep(ty)].get("n", "")), w.lo, w.hi)

    def decide(self, st, v, ivs):
        """is the number v in the set? forks if undecided"""
        if type(v) is int:
            return iv_has(ivs, v)
        s = Dom.set_of(st.dom, v)
        if not s:
            raise Stop("empty")
        i = iv_inter(s, ivs)
        if not i:
            return False
        if i == s:
            return True
        raise Fork([[("dom", v, ivs)], [("dom", v, iv_compl(ivs))]])

    def boolean(self, st, v):
        return self.decide(st, v, ((1, INF),))

    def compare(self, st, op, a, b):
        if not is_num(a) or not is_num(b):
            if a == b and a[0] in ("R", "P", "F") and op in ("Eq", "Ne", "Le", "Ge", "Lt", "Gt"):
                return 1 if op in ("Eq", "Le", "Ge") else 0
            if op in ("Eq", "Ne") and type(a) is tuple and type(b) is tuple and a[0] == "R" and b[0] == "R":
                return self.ptreq(st, a, b, op)
            if type(a) is tuple and type(b) is tuple and a[0] == "R" and b[0] == "R" and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1]:
                ia, ib = pidx(a[2][-1]), pidx(b[2][-1])
                if ia is not None and ib is not None:
                    return self.compare(st, op, ia, ib)
            if type(a) is tuple and type(b) is tuple and (a[0] in ("P", "R")) and (b[0] in ("P", "R")) and op in ("Eq", "Ne"):
                if a[0] == b[0] == "P":
                    return int((a[1] == b[1]) == (op == "Eq"))
                return 0 if op == "Eq" else 1
            if (type(a) is tuple and a[0] == "U") or (type(b) is tuple and b[0] == "U"):
                raise UB("comparison of uninitialised memory")
            if fl(a) or fl(b):
                return self.fcompare(st, op, a, b)
            raise Unknown("comparison %s %s %s" % (op, a[0] if type(a) is tuple else a, b[0] if type(b) is tuple else b))
        d = sub(a, b)
        if op == "Eq":
            r = self.decide(st, d, ((0, 0),))
        elif op == "Ne":
            r = not self.decide(st, d, ((0, 0),))
        elif op == "Lt":
            r = self.decide(st, d, ((-INF, -1),))
        elif op == "Le":
            r = self.decide(st, d, ((-INF, 0),))
        elif op == "Gt":
            r = self.decide(st, d, ((1, INF),))
        elif op == "Ge":
            r = self.decide(st, d, ((0, INF),))
        else:
            raise Unknown("comparison " + op)
        return 1 if r else 0

    def ptreq(self, st, a, b, op):
        if a[1] == b[1]:
            pa, pb = a[2], b[2]
            if pa == pb:
                eq = 1
            elif pa and pb and pa[:-1] == pb[:-1] and pidx(pa[-1]) is not None and pidx(pb[-1]) is not None:
                eq = self.compare(st, "Eq", pidx(pa[-1]), pidx(pb[-1]))
            else:
                eq = 0
        else:
            eq = 0
        return eq if op == "Eq" else 1 - eq

    def fcompare(self, st, op, a, b):
        if a[0] == "fl" and b[0] == "fl":
            x, y = fval(a), fval(b)
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            return 1 if r else 0
        key = ("fcmp", op, a, b)
        r = st.exp.get(key)
        if r is None:
            raise Fork([[("exp", key, 0)], [("exp", key, 1)]])
        return r

    def binop(self, st, op, a, b, ty):
        unchecked = False
        if op.endswith("Unchecked"):
            op = op[:-9]
            unchecked = True
        ovf = False
        if op.endswith("WithOverflow"):
            op = op[:-12]
            ovf = True
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if op == "Cmp":
            if self.compare(st, "Lt", a, b):
                return ("E", 0, ())
            return ("E", 1, ()) if self.compare(st, "Eq", a, b) else ("E", 2, ())
        if op == "Offset":
            return self.ptr_offset(st, a, b)
        if fl(a) or fl(b):
            return ("fy", (op, a, b))
        if not is_num(a) or not is_num(b):
            if (type(a) is tuple and a[0] == "U") or (type(b) is tuple and b[0] == "U"):
                raise UB("arithmetic on uninitialised memory")
            raise Unknown("%s on %s, %s" % (op, a[0] if type(a) is tuple else "", b[0] if type(b) is tuple else ""))
        if op in ("Add", "Sub", "Mul"):
            if op == "Add":
                r = add(a, b)
            elif op == "Sub":
                r = sub(a, b)
            else:
                r = self.mul(st, a, b)
            try:
                w, o = self.wrap(st, r, ty)
            except _Wide as e:
                if ovf:
                    w, o = self.fnatom("wrap", (r,), e.lo, e.hi), 1
                else:
                    w, o = self.fnatom("wrap", (r,), e.lo, e.hi), 1
            if unchecked and o:
                raise UB("overflow in an unchecked operation")
            if ovf:
                return ("S", (w, o))
            return w
        if op in ("Shl", "Shr"):
            return self.shift(st, op, a, b, ty, ovf)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bit(st, op, a, b, ty)
        if op in ("Div", "Rem"):
            if not self.decide(st, b, iv_compl(((0, 0),))):
                raise UB("division by zero")
            if type(a) is int and type(b) is int:
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "Div" else a - q * b
                return self.wrap(st, r, ty)[0]

            def f(x, y):
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q if op == "Div" else x - q * y

            t = self.tabulate(st, f, a, b)
            if t is not None:
                return t
            alo, ahi = Dom.range(st.dom, a)
            if type(b) is int and b > 0 and alo >= 0:
                if ahi < b:
                    return 0 if op == "Div" else a
                if op == "Div":
                    return self.fnatom("div", (a, b), alo // b, ahi // b)
                return self.fnatom("rem", (a, b), 0, b - 1)
            lo, hi = self.trange(ty)
            return self.fnatom(op, (a, b), lo, hi)
        raise Unknown("operator " + op)

    def mul(self, st, a, b):
        if type(a) is int:
            return scale(b, a)
        if type(b) is int:
            return scale(a, b)
        t = self.tabulate(st, lambda x, y: x * y, a, b)
        if t is not None:
            return t
        al, ah = Dom.range(st.dom, a)
        bl, bh = Dom.range(st.dom, b)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return self.fnatom("mul", (a, b), min(c), max(c))

    def bits(self, ty):
        lo, hi = self.trange(ty)
        return (hi - lo + 1).bit_length() - 1

    def shift(self, st, op, a, b, ty, ovf):
        n = self.bits(ty)
        lo, hi = self.trange(ty)
        if type(b) is not int:
            s = Dom.set_of(st.dom, b)
            if s and iv_size(s) == 1:
                b = s[0][0]
            else:
                t = self.tabulate(st, lambda x, y: ((x << y) & ((1 << n) - 1)) if op == "Shl" and lo == 0 else (x >> y if op == "Shr" else None), a, b)
                if t is not None:
                    return t
                if s and iv_size(s) <= 64:
                    raise Fork([[("dom", b, ((x, x),))] for x in iv_values(s)])
                raise Unknown("shift by an unknown amount")
        b = b % n
        if op == "Shl":
            r = scale(a, 1 << b)
            return self.trunc(st, r, ty)
        if type(a) is int:
            return a >> b
        return self.shr(st, a, b)

    def shr(self, st, a, b):
        if b == 0:
            return a
        m = 1 << b
        x, y = Dom.range(st.dom, a)
        if x >> b == y >> b:
            return x >> b
        ts = a[1]
        if all(c % m == 0 for _, c in ts):
            return add(mklin([(t, c // m) for t, c in ts], 0), a[2] >> b)
        t = self.tabulate(st, lambda v: v >> b, a)
        if t is not None:
            return t
        # split off the terms which are multiples
        big = [(t, c // m) for t, c in ts if c % m == 0]
        small = mklin([(t, c) for t, c in ts if c % m], a[2])
        if big:
            l, h = Dom.range(st.dom, small)
            if 0 <= l and h < m:
                return mklin(big, 0)
        return self.fnatom("shr", (a, b), x >> b, y >> b)

    def bit(self, st, op, a, b, ty):
        n = self.bits(ty)
        lo, hi = self.trange(ty)
        mask = (1 << n) - 1

        def sg(x):
            x &= mask
            return x - (1 << n) if lo < 0 and x >> (n - 1) else x

        if type(a) is int and type(b) is int:
            return sg({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op])
        if type(a) is int:
            a, b = b, a
        if self.T[self.P.rep(ty)]["k"] == "bool":
            # booleans: decide
            if self.boolean(st, a):
                return {"BitAnd": b, "BitOr": 1}.get(op) if op != "BitXor" else (1 - b if type(b) is int else sub(1, b))
            return {"BitAnd": 0}.get(op, b)
        if type(b) is int:
            if op == "BitAnd":
                bb = b & mask
                if bb == 0:
                    return 0
                if bb == mask:
                    return a
                al, ah = Dom.range(st.dom, a)
                if bb & (bb + 1) == 0:
                    k = bb.bit_length()
                    if al >> k == ah >> k:
                        return sub(a, (al >> k) << k)
                t = self.tabulate(st, lambda v: sg(v & b), a)
                if t is not None:
                    return t
                if bb & (bb + 1) == 0:
                    k = bb.bit_length()
                    q = self.shr(st, a, k)
                    r = sub(a, scale(q, 1 << k))
                    if type(r) is not int:
                        form, g, c = Dom.norm(r)
                        if len(form) > 1:
                            Dom.constrain(st.dom, r, ((0, bb),))
                    return r
                if al >= 0 and lo == 0 or al >= 0:
                    # high mask: v & ~(2^k-1)
                    low = (~bb) & mask
                    if low & (low + 1) == 0:
                        k = low.bit_length()
                        return scale(self.shr(st, a, k), 1 << k)
                    return self.fnatom("and", (a, b), 0, min(bb, max(ah, 0)))
                return self.fnatom("and", (a, b), lo, hi)
        t = self.tabulate(st, lambda x, y: sg({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]), a, b)
        if t is not None:
            return t
        if op in ("BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                # x a multiple of 2^k, y < 2^k
                l, h = Dom.range(st.dom, y)
                if l < 0:
                    continue
                k = h.bit_length()
                if self.multiple(st, x, 1 << k) and Dom.range(st.dom, x)[0] >= 0:
                    return add(x, y)
        al, ah = Dom.range(st.dom, a)
        bl, bh = Dom.range(st.dom, b)
        if al >= 0 and bl >= 0:
            if op == "BitAnd":
                return self.fnatom("and", (a, b), 0, min(ah, bh))
            return self.fnatom(op, (a, b), 0, min(hi, (1 << max(ah.bit_length(), bh.bit_length())) - 1))
        return self.fnatom(op, (a, b), lo, hi)

    def multiple(self, st, v, m):
        if type(v) is int:
            return v % m == 0
        if v[2] % m:
            return False
        for at, co in v[1]:
            if co % m == 0:
                continue
            if at[0] == "tb" and all((y * co) % m == 0 for _, y in at[2]):
                continue
            return False
        return True

    def ptr_offset(self, st, p, n):
        if p[0] == "P" and type(n) is int:
            return ("P", p[1] + n)
        if p[0] != "R":
            raise Unknown("offset of %s" % p[0])
        if type(n) is int and n == 0:
            return p
        if not p[2]:
            raise Unknown("offset of a pointer to a single object")
        i = pidx(p[2][-1])
        if i is None:
            raise Unknown("offset of pointer")
        i = add(i, n)
        return ("R", p[1], p[2][:-1] + (i if type(i) is int else ("ix", i),), p[3])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, x, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, x, r[1])
        if k == "ref" or k == "raw":
            a, proj, meta = self.ploc(st, fr, x, r[2])
            if a not in st.heap and not (type(a) is tuple and a[0] in ("k", "om", "zst")):
                raise UB("reference to memory which is not valid")
            if type(a) is tuple and a[0] == "om" and a in st.freed:
                raise UB("reference into freed memory")
            return ("R", a, proj, meta)
        if k == "discr":
            a, proj, meta = self.ploc(st, fr, x, r[1])
            v = self.load(st, a, proj)
            return self.discriminant(st, v, r[2])
        if k == "aadt":
            t = r[1]
            f = self.P.tfield(t)
            ops = r[3]
            if f is not None:
                if r[4] is not None:  # union
                    if not ops:
                        return UNINIT
                    if self.T[t]["path"].endswith("MaybeUninit") and r[4] == 0:
                        return UNINIT
                    return self.operand(st, fr, x, ops[0])
                return self.operand(st, fr, x, ops[f])
            fs = tuple([self.operand(st, fr, x, o) for o in ops])
            if self.T[t]["ak"] == "enum":
                return ("E", r[2], fs)
            return ("S", fs)
        if k == "atup":
            return ("S", tuple([self.operand(st, fr, x, o) for o in r[1]]))
        if k == "acl":
            return ("S", tuple([self.operand(st, fr, x, o) for o in r[2]]))
        if k == "aarr":
            return ("A", tuple([self.operand(st, fr, x, o) for o in r[1]]))
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, x, r[2]), self.operand(st, fr, x, r[3]), r[4])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, x, r[2]), r[3], r[4], r[5])
        if k == "un":
            v = self.operand(st, fr, x, r[2])
            if r[1] == "Not":
                if self.T[self.P.rep(r[3])]["k"] == "bool":
                    return 1 - v if type(v) is int else sub(1, v)
                lo, hi = self.trange(r[3])
                return sub(lo + hi, v)
            if r[1] == "Neg":
                if fl(v):
                    return self.fneg(v)
                return self.trunc(st, scale(v, -1), r[3])
            if r[1] == "PtrMetadata":
                if v[0] == "O":
                    v = self.expand(st, v)
                m = v[3] if v[0] == "R" else None
                if m is None:
                    return UNIT
                return m[1] if m[0] == "len" else m
            raise Unknown("unary " + r[1])
        if k == "rep":
            v = self.operand(st, fr, x, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unknown("repeat")
            return ("A", (v,) * r[2])
        if k == "aptr":
            d = self.operand(st, fr, x, r[2][0])
            m = self.operand(st, fr, x, r[2][1])
            return self.fat(st, d, m)
        raise Unknown("rvalue " + str(k))

    def fat(self, st, d, m):
        if d[0] == "P":
            return ("R", ("zst",), (), ("len", m) if is_num(m) else m)
        if m == UNIT:
            return ("R", d[1], d[2], None)
        if is_num(m):
            p = d[2]
            if p and pidx(p[-1]) is not None and not (type(p[-1]) is tuple and p[-1][0] == "@"):
                # a pointer to an element becomes a slice starting there
                p = p[:-1] + (("@", pidx(p[-1])),)
            return ("R", d[1], p, ("len", m))
        return ("R", d[1], d[2], m)

    def fneg(self, v):
        if v[0] == "fl":
            n = 63 if v[2] == "f64" else 31
            return ("fl", v[1] ^ (1 << n), v[2])
        if type(v[1]) is tuple and v[1] and v[1][0] == "Neg":
            return v[1][1]
        return ("fy", ("Neg", v))

    def discriminant(self, st, v, ty):
        t = self.P.rep(ty)
        x = self.T[t]
        if type(v) is int or v[0] == "y":
            return v
        if x["k"] == "adt" and x["ak"] == "enum":
            vi = self.variant_of(st, v)
            return x["v"][vi][1]
        return 0

    def cast(self, st, k, v, ft, tt, extra):
        P = self.P
        if k == "use":
            return v
        if k == "i2i":
            if not is_num(v):
                if v[0] == "E":
                    v = self.T[P.rep(ft)]["v"][v[1]][1]
                elif v[0] == "O":
                    v = self.discriminant(st, v, ft)
                elif v[0] == "U":
                    raise UB("cast of uninitialised memory")
                else:
                    raise Unknown("cast of " + v[0])
            return self.trunc(st, v, tt)
        if k == "unsize":
            return self.unsize(st, v, extra)
        if k in ("reify", "ptr"):
            return v
        if k == "closurefnptr":
            raise Unknown("closure as function pointer")
        if k == "p2p":
            return self.ptrcast(st, v, ft, tt)
        if k == "transmute":
            return self.transmute(st, v, ft, tt)
        if k == "i2f":
            if type(v) is int:
                import struct

                n = self.T[P.rep(tt)]["n"]
                try:
                    return ("fl", struct.unpack("<Q", struct.pack("<d", float(v)))[0] if n == "f64" else struct.unpack("<I", struct.pack("<f", float(v)))[0], n)
                except OverflowError:
                    pass
            return ("fy", ("i2f", v, self.T[P.rep(tt)]["n"]))
        if k == "f2f":
            a, b = self.T[P.rep(ft)]["n"], self.T[P.rep(tt)]["n"]
            if a == b:
                return v
            return ("fy", ("f2f", v, a, b))
        if k == "f2i":
            lo, hi = self.trange(tt)
            return self.fnatom("f2i", (v, self.T[P.rep(tt)]["n"]), lo, hi)
        raise Unknown("cast " + k)

    def unsize(self, st, v, extra):
        if v[0] == "O":
            v = self.expand(st, v)
        if v[0] == "S":
            fs = list(v[1])
            for i, f in enumerate(fs):
                if type(f) is tuple and f and f[0] == "R":
                    fs[i] = self.unsize(st, f, extra)
                    return ("S", tuple(fs))
            raise Unknown("unsize")
        if v[0] != "R":
            raise Unknown("unsize of " + v[0])
        if extra is None:
            return v
        if extra[0] == "arr":
            return ("R", v[1], v[2], ("len", extra[1]))
        if extra[0] == "vt":
            return ("R", v[1], v[2], ("vt", extra[1]))
        if extra[0] == "upcast":
            return v
        raise Unknown("unsize")

    def ptrcast(self, st, v, ft, tt):
        P = self.P
        if v[0] == "O":
            v = self.expand(st, v)
        if v[0] == "P":
            return v
        if v[0] != "R":
            raise Unknown("pointer cast of " + v[0])
        a, b = P.pointee(ft), P.pointee(tt)
        if a is None or b is None:
            return v
        return self.repoint(st, v, a, b)

    def repoint(self, st, v, a, b):
        P = self.P
        ra, rb = P.rep(a), P.rep(b)
        if ra == rb:
            return v
        xa, xb = self.T[ra], self.T[rb]
        proj, meta = v[2], v[3]
        bw = xb["k"] in ("slice", "str", "dyn")
        if xa["k"] in ("slice", "array", "str") and not bw:
            if xb["k"] == "array":
                if xa["k"] == "array":
                    return v
                # slice -> array: the same start
                if proj and type(proj[-1]) is tuple and proj[-1][0] == "@" and proj[-1][1] == 0:
                    proj = proj[:-1]
                return ("R", v[1], proj, None)
            e = xa.get("e")
            if e is None or P.rep(e) == rb or self.T[rb].get("sz") == self.T[P.rep(e)].get("sz"):
                return ("R", v[1], self.index(st, proj, 0), None)
            return ("R", v[1], proj, None)
        if not bw and meta is not None:
            # thin pointer to the data of a wide one
            return ("R", v[1], proj, None)
        if xa["k"] == "adt" and xa["ak"] == "struct" and not bw:
            fs = P.fields(ra)
            if fs and P.rep(fs[0]) == rb:
                return ("R", v[1], proj + (0,), None)
        if xb["k"] == "adt" and xb["ak"] == "struct":
            fs = P.fields(rb)
            if fs and P.rep(fs[0]) == ra and proj and proj[-1] == 0:
                return ("R", v[1], proj[:-1], None)
        if xb["k"] == "array" and proj and proj[-1] == 0:
            e = P.rep(xb["e"])
            if e == ra or (self.T[e].get("sz") is not None and self.T[e].get("sz") == xa.get("sz")):
                # element -> array which starts with it
                try:
                    c = self.load(st, v[1], proj[:-1])
                    n = xb["len"]
                    if c[0] in ("A", "OA"):
                        fits = sub(self.lenof(st, c), n) == 0
                    else:  # memory whose type was not known when it was written
                        fits = c[0] == "S" and len(c[1]) >= n and all(y == UNINIT for y in c[1][n:])
                    if fits:
                        return ("R", v[1], proj[:-1], None)
                except UB:
                    pass
        return v

    def transmute(self, st, v, ft, tt):
        P = self.P
        a, b = P.rep(ft), P.rep(tt)
        if a == b:
            return v
        xa, xb = self.T[a], self.T[b]
        if v == UNINIT:
            return v
        if xa["k"] in ("ref", "ptr") and xb["k"] in ("ref", "ptr"):
            return v
        if xa["k"] in ("ref", "ptr") and xb["k"] in ("int", "uint"):
            return v[1] if v[0] == "P" else ("P?", v)
        if xb["k"] in ("ref", "ptr") and xa["k"] in ("int", "uint"):
            if type(v) is tuple and v[0] == "P?":
                return v[1]
            return ("P", v)
        if xa["k"] in ("int", "uint", "char", "bool") and xb["k"] in ("int", "uint", "char", "bool"):
            if xb["k"] == "char":
                if is_num(v):
                    if not self.decide(st, v, CHAR_DOM):
                        raise UB("invalid char")
                    return v
            if xb["k"] == "bool":
                if not self.decide(st, v, ((0, 1),)):
                    raise UB("invalid bool")
            return self.trunc(st, v, tt)
        if xa["k"] == "float" and xb["k"] in ("int", "uint"):
            return self.fbits(st, v)
        if xb["k"] == "float" and xa["k"] in ("int", "uint"):
            if type(v) is int:
                return ("fl", v, xb["n"])
            if v[1][0][0][:2] == ("fn", "fbits") and len(v[1]) == 1 and v[2] == 0:
                return v[1][0][0][2]
            return ("fy", ("frombits", v))
        if xa["k"] == "array" and xb["k"] == "array" and xa.get("len") == xb.get("len"):
            if v[0] == "A":
                return ("A", tuple(self.transmute(st, e, xa["e"], xb["e"]) for e in v[1]))
            return v
        if xa["k"] == xb["k"] == "adt" and xa["path"] == xb["path"]:
            return v
        if xa["k"] in ("tuple", "adt") and xb["k"] in ("tuple", "adt") and xa.get("ak") != "enum":
            if v[0] == "S" and len(v[1]) == len(P.fields(b)):
                return v
        if (xa["k"] == "adt" and xa["ak"] == "enum") and xb["k"] in ("int", "uint"):
            return self.discriminant(st, v, ft)
        if (xb["k"] == "adt" and xb["ak"] == "enum") and xa["k"] in ("int", "uint"):
            if is_num(v):
                if type(v) is int:
                    for i, vv in enumerate(xb["v"]):
                        if vv[1] == v and not vv[2]:
                            return ("E", i, ())
                    raise UB("invalid enum value")
        if (xa["k"] in ("ref", "ptr")) and xb["k"] == "adt":
            return v
        if xa["p"] == "std::any::TypeId" and xb["k"] == "uint" and v[0] == "S" and v[1][0][0] == "tid":
            return (0x7D << 120) + v[1][0][1]
        raise Unknown("transmute %s -> %s %s" % (xa["p"], xb["p"], str(v)[:80]))

    def fbits(self, st, v):
        if v[0] == "fl":
            return v[1]
        return self.fnatom("fbits", (v,), 0, (1 << 64) - 1)

    # ---------------------------------------------------------------- control
    def push(self, st, inst, args, dest=None, target=None):
        x = self.I[inst]
        blocks = x.get("blocks")
        if blocks is None:
            raise Unknown("no body: " + (x.get("full") or x["name"]))
        if len(st.frames) > self.maxframes:
            raise Unknown("call depth")
        n = x["argc"]
        if x.get("spread") is None and x["name"].endswith("}") and args and n != 0:
            # closure: the arguments are passed as a tuple
            if len(args) == 2 and self.is_closure(x):
                t = args[1]
                if type(t) is tuple and t[0] == "O":
                    t = self.expand(st, t)
                args = [args[0]] + list(t[1])
        if len(args) != n:
            if x.get("spread") is not None and len(args) > n:
                k = x["spread"] - 1
                args = list(args[:k]) + [("S", tuple(args[k:]))]
            if len(args) != n:
                raise Unknown("argument count of " + x["name"])
        F = self.frame_token(inst, st)
        for i, a in enumerate(args):
            st.heap[(F, i + 1)] = a
        if inst not in self.funcs:
            self.funcs.add(inst)
        st.frames.append([inst, F, 0, 0, dest, target])

    def is_closure(self, x):
        r = x.get("_cl")
        if r is None:
            nm = x["name"]
            r = nm.rsplit("::", 1)[-1].startswith("{closure#")
            x["_cl"] = r
        return r

    def native(self, st, fn, data=()):
        """pushes a continuation: fn(E, st, frame, ret) is called, with the value returned by the
        frame above; frame = ['N', fn, data, ret]; it ends by self.finish_native"""
        st.frames.append(["N", fn, data, None])

    def frame_token(self, inst, st):
        return N("f")

    def ret(self, st, val):
        """returns from the topmost frame"""
        self.C.on_ret(self, st)
        fr = st.frames.pop()
        if fr[0] != "N":
            F = fr[1]
            h = st.heap
            for i in range(len(self.I[fr[0]]["locals"])):
                h.pop((F, i), None)
        if not st.frames:
            return val
        top = st.frames[-1]
        if top[0] == "N":
            top[3] = val
        elif fr[0] == "N":
            self.deliver(st, top, val)
        else:
            dest = fr[4]
            if dest is not None:
                self.store_dest(st, dest, val)
            self.goto(st, top, fr[5])
        return None

    def store_dest(self, st, dest, val):
        a, proj = dest
        if not proj and type(a) is tuple and type(a[0]) is N:
            st.heap[a] = val
        else:
            self.store(st, a, proj, val)

    def deliver(self, st, fr, val):
        """the result of a native frame above the MIR frame fr"""
        x = self.I[fr[0]]
        t = x["blocks"][fr[2]][1]
        if t[0] == "call":
            a, proj, _ = self.ploc(st, fr, x, t[3])
            self.store_dest(st, (a, proj), val if val is not None else UNIT)
            if t[4] is None:
                raise Stop("diverges")
            self.goto(st, fr, t[4])
        elif t[0] == "drop":
            self.goto(st, fr, t[3])
        else:
            raise Unknown("native result")

    def goto(self, st, fr, bb):
        fr[2] = bb
        fr[3] = 0
        if bb is None:
            raise Stop("diverges")
        if bb in self.P.heads(fr[0]):
            fr[3] = -1

    def athead(self, st, fr):
        """arrival at the head of a loop (may fork: the arrival is then processed again)"""
        fr[3] = 0
        try:
            self.C.widen(self, st)
        except Fork:
            fr[3] = -1
            raise
        if not self.visit(st):
            raise Stop("seen")

    def visit(self, st):
        k = self.canon(st)
        if k in self.visited:
            return False
        self.visited.add(k)
        self.stats["states"] += 1
        return True

    # canonical form of a state
    def canon(self, st, roots=(), gc=True):
        names = {}
        seen = set()
        queue = []
        heap = st.heap

        def c(v):
            t = type(v)
            if t is tuple or isinstance(v, tuple):
                if not v:
                    return ()
                if v[0] == "R" and len(v) == 4:
                    a = v[1]
                    if a not in seen:
                        seen.add(a)
                        queue.append(a)
                elif (v[0] == "V" or v[0] == "M") and len(v) == 2:
                    if v[1] not in seen:
                        seen.add(v[1])
                        queue.append(v[1])
                return tuple([c(e) for e in v])
            if t is N:
                k = names.get(v)
                if k is None:
                    k = names[v] = len(names)
                return ("#", k)
            if t is list:
                return tuple([c(e) for e in v])
            if t is frozenset:
                return frozenset(c(e) for e in v)
            return v

        out = [c(tuple(roots)), st.unw]
        nf = len(st.frames)
        for fi, fr in enumerate(st.frames):
            if fr[0] == "N":
                out.append(("N", fr[1].__name__, c(fr[2]), c(fr[3])))
                continue
            F = fr[1]
            last = fi == nf - 1
            out.append((fr[0], c(F), fr[2], fr[3], c(fr[4]), fr[5]))
            lv = self.P.live(fr[0])
            if last and fr[3] == 0:
                ls = lv[fr[2]]
            else:
                t = self.I[fr[0]]["blocks"][fr[2]][1]
                ls = set()
                for s in succs(t):
                    ls.update(lv[s])
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) > 1:
                        ls.add(pl[0])
                elif t[0] == "drop":
                    ls.add(t[1][0])
                ls = sorted(ls)
            for n in ls:
                a = (F, n)
                v = heap.get(a)
                if v is not None:
                    seen.add(a)
                    out.append((n, c(v)))
        i = 0
        ghost = False
        while True:
            while i < len(queue):
                a = queue[i]
                i += 1
                v = heap.get(a)
                if v is not None:
                    out.append((c(a), c(v)))
                elif a in st.freed:
                    out.append((c(a), "freed"))
            if ghost:
                break
            ghost = True
            out.append(c(st.ghost))

        def known(v):
            t = type(v)
            if t is tuple:
                for e in v:
                    if type(e) is tuple:
                        if not known(e):
                            return False
                    elif type(e) is N and e not in names:
                        return False
                return True
            return not (t is N and v not in names)

        ex = []
        dead = []
        for k, v in st.exp.items():
            if known(k):
                ex.append((c(k), v))
            else:
                dead.append(k)
        if gc:
            for k in dead:
                del st.exp[k]
        dm = []
        dead = []
        for k, v in st.dom.items():
            if known(k):
                dm.append((c(k), v))
            else:
                dead.append(k)
        if gc:
            for k in dead:
                del st.dom[k]
        fz = frozenset(x for x in st.freed if known(x))
        if gc:
            st.freed = fz
        return (tuple(out), frozenset(ex), frozenset(dm), c(fz))

    # ---------------------------------------------------------------- calls
    def model_for(self, inst):
        r = self._mcache.get(inst, 0)
        if r != 0:
            return r
        x = self.I[inst]
        nm = x["name"]
        r = self.M.get(x.get("full") or nm)
        if r is None:
            r = self.M.get(nm)
        if r is None:
            for p, f in self.PM:
                if nm.startswith(p):
                    r = f
                    break
        if r is None:
            ti = x.get("trait_item")
            if ti:
                r = self.M.get((ti, x.get("impl_self")))
        self._mcache[inst] = r
        return r

    def is_opaque(self, x):
        r = x.get("_opq")
        if r is None:
            n = x["name"]
            r = x["crate"] == "fixture" and ("opq::" in (n.split(" as ")[0] if n.startswith("<") else n))
            x["_opq"] = r
        return r

    def call_inst(self, st, inst, args, argtys, destty, dest, target):
        """calls an instance in the context of the topmost frame"""
        x = self.I[inst]
        if self.is_opaque(x):
            c = Call(inst, x, args, argtys, destty)
            v = self.C.on_opaque(self, st, c)
            return self.done(st, v, dest, target)
        m = self.model_for(inst)
        if m is not None:
            c = Call(inst, x, args, argtys, destty)
            v = m(self, st, c)
            if v is NATIVE:
                return None
            if type(v) is Redirect:
                return self.call_inst(st, v.inst, v.args, v.argtys, destty, dest, target)
            return self.done(st, v, dest, target)
        k = x["kind"]
        if k == "virtual":
            return self.call_virtual(st, x.get("trait_item") or x["name"], inst, args, argtys, destty, dest, target)
        if x.get("ctor") is not None and x.get("blocks") is None:
            t = x["ret"]
            f = self.P.tfield(t)
            if f is not None:
                return self.done(st, args[f], dest, target)
            v = ("E", x["ctor"], tuple(args)) if self.T[t]["ak"] == "enum" else ("S", tuple(args))
            return self.done(st, v, dest, target)
        if k == "dropglue":
            p = args[0]
            e = P_pointee(self, x, argtys)
            if self.T[e].get("nd") is False and self.T[e]["k"] != "dyn":
                return self.done(st, UNIT, dest, target)
            st.frames.append(["N", n_drop, (("d", p[1], p[2], p[3], e),), None])
            return None
        self.push(st, inst, args, dest, target)
        return None

    def done(self, st, v, dest, target):
        fr = st.frames[-1] if st.frames else None
        if v is None:
            v = UNIT
        if fr is None or fr[0] == "N":
            if fr is not None:
                fr[3] = v
            return None
        if dest is not None:
            self.store_dest(st, dest, v)
        self.goto(st, fr, target)
        return None

    def call_virtual(self, st, item, inst, args, argtys, destty, dest, target):
        recv = args[0]
        if recv[0] == "O":
            recv = self.expand(st, recv)
        if recv[0] == "S":
            raise Unknown("virtual call on a wrapped pointer")
        if recv[0] != "R":
            raise Unknown("virtual call on " + recv[0])
        # the receiver must be valid
        self.content(st, recv[1])
        m = recv[3]
        if m is None:
            raise Unknown("virtual call without vtable")
        if m[0] == "vt":
            t = self.P.vt_methods[m[1]].get(item)
            if t is None:
                for kk, vv in self.P.vt_methods[m[1]].items():
                    if kk.rsplit("::", 1)[-1] == item.rsplit("::", 1)[-1]:
                        t = vv
            if t is None:
                raise Unknown("no method %s in vtable" % item)
            a = [("R", recv[1], recv[2], None)] + list(args[1:])
            st_ty = self.P.VT[m[1]][0]
            # unsized self types behind the vtable are always sized: thin
            return self.call_inst(st, t, a, argtys, destty, dest, target)
        c = Call(inst, self.I[inst] if inst is not None else None, args, argtys, destty)
        c.item = item
        c.tok = m[1]
        c.recv = recv
        v = self.C.on_virtual(self, st, c)
        return self.done(st, v, dest, target)

    def term(self, st, fr, x, t):
        k = t[0]
        if k == "goto":
            self.goto(st, fr, t[1])
            return None
        if k == "switch":
            v = self.operand(st, fr, x, t[1])
            if not is_num(v):
                if v[0] == "U":
                    raise UB("branch on uninitialised memory")
                if v[0] == "E":
                    v = self.discriminant(st, v, t[2])
                elif v[0] in ("P", "P?") and is_num(v[1]):
                    v = v[1]
                else:
                    raise Unknown("switch on " + v[0])
            tt = self.T[self.P.rep(t[2])]
            vals = t[3]
            signed = tt["k"] == "int"
            if type(v) is int:
                for val, bb in vals:
                    if signed:
                        val = sext(val, tt["n"])
                    if val == v:
                        self.goto(st, fr, bb)
                        return None
                if t[4] is None:
                    raise Stop("switch")
                self.goto(st, fr, t[4])
                return None
            s = Dom.set_of(st.dom, v)
            refs = []
            rest = s
            for val, bb in vals:
                if signed:
                    val = sext(val, tt["n"])
                if iv_has(s, val):
                    refs.append((((val, val),), bb))
                    rest = iv_inter(rest, iv_compl(((val, val),)))
            if rest and t[4] is not None:
                refs.append((rest, t[4]))
            if not refs:
                raise Stop("switch")
            if len(refs) == 1:
                if not Dom.constrain(st.dom, v, refs[0][0]):
                    raise Stop("infeasible")
                self.goto(st, fr, refs[0][1])
                return None
            raise Fork([[("dom", v, r[0])] for r in refs])
        if k == "ret":
            v = st.heap.get((fr[1], 0))
            if v is None:
                v = UNIT
            return self.ret_top(st, v)
        if k == "call":
            return self.call_term(st, fr, x, t)
        if k == "drop":
            a, proj, meta = self.ploc(st, fr, x, t[1])
            ty = t[2]
            if not self.T[ty].get("nd"):
                self.goto(st, fr, t[3])
                return None
            st.frames.append(["N", n_drop, ((("d", a, proj, meta, ty),)), None])
            return None
        if k == "assert":
            v = self.operand(st, fr, x, t[1])
            exp = 1 if t[2] else 0
            b = 1 if self.boolean(st, v) else 0
            if b != exp:
                raise Panic("assert: %s" % t[3])
            self.goto(st, fr, t[4])
            return None
        if k == "unreachable":
            raise UB("unreachable code is reached")
        if k == "resume":
            return self.resume(st)
        if k == "abort":
            raise Panic("abort")
        raise Unknown("terminator " + k)

    def ret_top(self, st, v):
        r = self.ret(st, v)
        if not st.frames:
            return Outcome("ret", st, v)
        return None

    def call_term(self, st, fr, x, t):
        callee = t[1]
        args = [self.operand(st, fr, x, o) for o in t[2]]
        a, proj, _ = self.ploc(st, fr, x, t[3])
        dest = (a, proj)
        if callee[0] == "inst":
            return self.call_inst(st, callee[1], args, t[6], t[7], dest, t[4])
        if callee[0] == "virt":
            return self.call_virtual(st, callee[1], callee[2] if len(callee) > 2 else None, args, t[6], t[7], dest, t[4])
        if callee[0] == "ptr":
            f = self.operand(st, fr, x, callee[1])
            return self.call_value(st, f, args, t[6], t[7], dest, t[4])
        raise Unknown("callee " + callee[0])

    def call_value(self, st, f, args, argtys, destty, dest, target):
        if f[0] == "F" and type(f[1]) is int:
            return self.call_inst(st, f[1], args, argtys, destty, dest, target)
        c = Call(None, None, args, argtys, destty)
        v = self.C.opaque_call(self, st, f, c)
        return self.done(st, v, dest, target)

    # ---- unwinding
    def unwind_from(self, st):
        """the topmost frame's current terminator panicked: continue with the cleanup"""
        st.unw = True
        while st.frames:
            fr = st.frames[-1]
            if fr[0] == "N":
                if fr[1] is n_drop and False:
                    pass
                st.frames.pop()
                continue
            x = self.I[fr[0]]
            t = x["blocks"][fr[2]][1]
            uw = None
            if t[0] in ("call", "assert"):
                uw = t[5]
            elif t[0] == "drop":
                uw = t[4] if len(t) > 4 else None
            if uw is not None:
                fr[2] = uw
                fr[3] = 0
                return None
            F = fr[1]
            for i in range(len(x["locals"])):
                st.heap.pop((F, i), None)
            st.frames.pop()
        return Outcome("unwound", st)

    def resume(self, st):
        fr = st.frames.pop()
        F = fr[1]
        for i in range(len(self.I[fr[0]]["locals"])):
            st.heap.pop((F, i), None)
        if not st.frames:
            return Outcome("unwound", st)
        return self.unwind_from(st)

    # ---------------------------------------------------------------- running
    def where(self, st):
        for fr in reversed(st.frames):
            if fr[0] != "N":
                x = self.I[fr[0]]
                if x["crate"] not in ("core", "alloc", "std", "hashbrown"):
                    b = x["blocks"][fr[2]]
                    return "%s (%s)" % (x.get("full") or x["name"], b[2])
        return "?"

    def stack(self, st):
        r = []
        for fr in reversed(st.frames):
            if fr[0] == "N":
                r.append("<%s>" % fr[1].__name__)
            else:
                x = self.I[fr[0]]
                r.append("%s (%s)" % (x.get("full") or x["name"], x["blocks"][fr[2]][2]))
        return r

    def run(self, st, fresh_visited=True):
        """explores everything from st; yields the outcomes"""
        if fresh_visited:
            self.visited = set()
        work = [st]
        self.work = work
        out = []
        steps0 = self.steps
        while work:
            st = work.pop()
            if DEADLINE is not None and time.monotonic() > DEADLINE:
                self.note_unknown("out of time")
                out.append(Outcome("budget", st, None, "out of time", ""))
                return out
            try:
                while True:
                    if self.steps - steps0 > self.budget:
                        out.append(Outcome("budget", st, None, "step budget", self.where(st)))
                        self.note_unknown("budget")
                        return out
                    o = self.block(st)
                    if o is not None:
                        self.stats["paths"] += 1
                        out.append(o)
                        break
            except Fork as f:
                self.stats["forks"] += 1
                self.steps += 20
                n = 0
                refs = f.refs
                for r in refs[:-1]:
                    s2 = st.copy()
                    if s2.refine(r):
                        work.append(s2)
                        n += 1
                if refs and st.refine(refs[-1]):
                    work.append(st)
            except Stop:
                pass
            except UB as e:
                out.append(Outcome("ub", st, None, str(e), self.where(st)))
            except Panic as e:
                if self.unwind:
                    st.ev = (st.ev, ("panic", str(e), self.where(st)))
                    w = self.where(st)
                    o = self.unwind_from(st)
                    if o is not None:
                        o.msg = str(e)
                        o.where = w
                        out.append(o)
                    else:
                        work.append(st)
                else:
                    out.append(Outcome("panic", st, None, str(e), self.where(st)))
            except Unknown as e:
                self.note_unknown(str(e) + " @ " + self.where(st))
                out.append(Outcome("unknown", st, None, str(e), self.where(st)))
        self.stats["steps"] = self.steps
        return out

    def note_unknown(self, m):
        self.unknown[m] = self.unknown.get(m, 0) + 1

    def block(self, st):
        """executes the rest of the current block of the topmost frame"""
        fr = st.frames[-1]
        if fr[0] == "N":
            self.steps += 1
            return fr[1](self, st, fr)
        if fr[3] < 0:
            self.athead(st, fr)
        inst = fr[0]
        x = self.I[inst]
        blk = x["blocks"][fr[2]]
        stmts = blk[0]
        i = fr[3]
        n = len(stmts)
        heap = st.heap
        F = fr[1]
        while i < n:
            s = stmts[i]
            fr[3] = i
            k = s[0]
            if k == "=":
                p = s[1]
                if len(p) == 1:
                    heap[(F, p[0])] = self.rvalue(st, fr, x, s[2])
                else:
                    v = self.rvalue(st, fr, x, s[2])
                    a, proj, _ = self.ploc(st, fr, x, p)
                    if not proj and a == (F, p[0]):
                        heap[a] = v
                    else:
                        if a == (F, p[0]) and a not in heap:
                            heap[a] = UNINIT
                        self.store(st, a, proj, v)
            elif k == "dead":
                heap.pop((F, s[1]), None)
            elif k == "live":
                heap[(F, s[1])] = UNINIT
            elif k == "sd":
                self.setdiscr(st, fr, x, s)
            elif k == "assume":
                v = self.operand(st, fr, x, s[1])
                if not self.boolean(st, v):
                    raise UB("assumption violated")
            elif k == "cno":
                self.copy_mem(st, self.operand(st, fr, x, s[1]), self.operand(st, fr, x, s[2]), self.operand(st, fr, x, s[3]))
            i += 1
        fr[3] = n
        self.steps += n + 1
        return self.term(st, fr, x, blk[1])

    def setdiscr(self, st, fr, x, s):
        a, proj, _ = self.ploc(st, fr, x, s[1])
        v = self.load(st, a, proj)
        ty = self.cplace(x, s[1])[2]
        nf = len(self.T[self.P.rep(ty)]["v"][s[2]][2])
        if v[0] == "E":
            fs = v[2]
        elif v[0] == "S":
            fs = v[1]
        else:
            fs = ()
        fs = tuple(fs[:nf]) + (UNINIT,) * (nf - len(fs))
        self.store(st, a, proj, ("E", s[2], fs))

    def copy_mem(self, st, src, dst, n, overlap=False):
        if type(n) is int and n == 0:
            return
        if src[0] == "P" or dst[0] == "P":
            raise Unknown("copy of integer pointers")
        if type(n) is not int:
            r = self.C.copy_mem(self, st, src, dst, n) if hasattr(self.C, "copy_mem") else None
            if r:
                return
            raise Unknown("copy of a symbolic number of elements")
        if n == 1:
            self.store(st, dst[1], dst[2], self.load(st, src[1], src[2]))
            return
        vals = []
        for i in range(n):
            p = self.ptr_offset(st, src, i)
            vals.append(self.load(st, p[1], p[2]))
        for i in range(n):
            p = self.ptr_offset(st, dst, i)
            self.store(st, p[1], p[2], vals[i])

    # ---------------------------------------------------------------- helpers for clients
    def start(self, st, root, args):
        """sets up a call of a root function in an empty stack"""
        assert not st.frames
        inst = root if type(root) is int else self.P.root(root)
        self.push(st, inst, args)

    def start_drop(self, st, ptr, ty):
        st.frames.append(["N", n_drop, (("d", ptr[1], ptr[2], ptr[3], ty),), None])


def P_pointee(E, x, argtys):
    t = x["args"][0] if x.get("args") else E.P.pointee(argtys[0])
    return t


class _Wide(Exception):
    def __init__(self, v, lo, hi):
        self.v, self.lo, self.hi = v, lo, hi


class _Native:
    pass


NATIVE = _Native()


class Redirect:
    """a model which calls another instance instead"""

    def __init__(self, inst, args, argtys=None):
        self.inst, self.args, self.argtys = inst, args, argtys


FTABS = []


def ftab(t):
    for i, x in enumerate(FTABS):
        if x is t or x == t:
            return i
    FTABS.append(t)
    return len(FTABS) - 1


def pidx(p):
    if type(p) is int:
        return p
    if type(p) is tuple and p[0] in ("ix", "@"):
        return p[1]
    return None


def fl(v):
    return type(v) is tuple and v[0] in ("fl", "fy")


def fval(v):
    import struct

    if v[2] == "f32":
        return struct.unpack("<f", struct.pack("<I", v[1]))[0]
    return struct.unpack("<d", struct.pack("<Q", v[1]))[0]


def sext(v, n):
    lo, hi = INT_RANGE[n]
    if v > hi:
        v -= hi - lo + 1
    return v


# -------------------------------------------------------------------- drop glue
def n_drop(E, st, fr):
    """worklist of drops: ('d', alloc, proj, meta, ty) | ('free', alloc) | ('forget', alloc, proj)"""
    acts = fr[2]
    if not acts:
        r = E.ret(st, UNIT)
        return Outcome("ret", st, UNIT) if not st.frames else None
    a = acts[0]
    rest = acts[1:]
    if a[0] == "free":
        E.free(st, a[1], a[2] if len(a) > 2 else "memory")
        fr[2] = rest
        return None
    if a[0] == "call":
        fr[2] = rest
        E.call_inst(st, a[1], list(a[2]), None, None, None, None)
        return None
    _, alloc, proj, meta, ty = a
    more = drop_acts(E, st, alloc, proj, meta, ty)
    fr2 = st.frames[-1]
    fr2[2] = tuple(more) + rest
    return None


def drop_acts(E, st, alloc, proj, meta, ty):
    P = E.P
    x = E.T[ty]
    if x["k"] != "dyn" and x["k"] not in ("slice",) and x.get("nd") is False:
        return []
    if x["k"] == "pat":
        return drop_acts(E, st, alloc, proj, meta, x["e"])
    if ty in P.opq:
        v = E.load(st, alloc, proj)
        if v[0] == "O":
            E.C.on_drop(E, st, ty, v[2])
            return []
        if v[0] == "U":
            raise UB("drop of an uninitialised value")
        raise Unknown("drop of opaque")
    if x["k"] == "dyn":
        if meta is None:
            raise Unknown("drop of dyn")
        if meta[0] == "vt":
            return [("d", alloc, proj, None, P.VT[meta[1]][0])]
        v = E.load(st, alloc, proj)
        E.C.on_drop(E, st, ty, v[2] if v[0] == "O" else meta[1])
        return []
    if x["k"] == "adt":
        if x.get("mdrop") or x["ak"] == "union":
            return []
        acts = []
        if x.get("box"):
            v = E.load(st, alloc, proj)
            if v[0] == "O":
                v = E.expand(st, v)
            if v[0] == "U":
                raise UB("drop of an uninitialised box")
            if v[0] != "R":
                raise Unknown("drop of box " + v[0])
            e = P.pointee(ty)
            if v[1] == ("zst",):
                return [("d", v[1], v[2], v[3], e)] if E.T[e].get("nd") else []
            # also checks that the memory is still valid
            E.content(st, v[1])
            r = []
            if v[2]:
                raise UB("box does not own a whole allocation")
            if E.T[e]["k"] == "dyn" or E.T[e].get("nd"):
                r.append(("d", v[1], v[2], v[3], e))
            r.append(("free", v[1], "box"))
            return r
        if x["path"] == "std::vec::Vec":
            v = E.load(st, alloc, proj)
            if v[0] == "O":
                v = E.expand(st, v)
            return vec_drop(E, st, v, x["args"][0])
        m = MODEL_DROP.get(x["path"])
        if m:
            return m(E, st, alloc, proj, ty, x)
        if x.get("drop") is not None:
            acts.append(("call", x["drop"], (("R", alloc, proj, None),)))
        elif x.get("hasdrop"):
            raise Unknown("drop of " + x["p"])
        f = P.tfield(ty)
        if f is not None:
            acts.append(("d", alloc, proj, meta, P.fields(ty)[f]))
            return acts
        v = E.load(st, alloc, proj)
        if v[0] == "U":
            raise UB("drop of an uninitialised value (%s)" % x["p"])
        if x["ak"] == "enum":
            if v[0] == "O" and v[2] not in st.exp and not acts and E.C.drop_whole(E, st, v):
                E.C.on_drop(E, st, ty, v[2])
                return []
            vi = E.variant_of(st, v)
            fs = P.fields(ty, vi)
        else:
            fs = P.fields(ty)
        for i, ft in enumerate(fs):
            if E.T[ft].get("nd") or E.T[ft]["k"] == "dyn":
                acts.append(("d", alloc, proj + (i,), meta if i == len(fs) - 1 else None, ft))
        return acts
    if x["k"] in ("tuple", "closure"):
        return [("d", alloc, proj + (i,), None, f) for i, f in enumerate(x["f"]) if E.T[f].get("nd")]
    if x["k"] == "array":
        return [("d", alloc, proj + (i,), None, x["e"]) for i in range(x["len"])]
    if x["k"] == "slice":
        n = meta[1]
        off = 0
        p = proj
        if p and type(p[-1]) is tuple and p[-1][0] == "@":
            off = p[-1][1]
            p = p[:-1]
        if type(n) is not int:
            v = E.load(st, alloc, p)
            E.C.on_drop(E, st, ty, v[2] if v[0] == "OA" else None)
            return []
        if not E.T[x["e"]].get("nd"):
            return []
        return [("d", alloc, E.index(st, proj, i), None, x["e"]) for i in range(n)]
    raise Unknown("drop of " + x["p"])


def vec_drop(E, st, v, ety):
    if v[0] == "U":
        raise UB("drop of an uninitialised vector")
    if v[0] != "V":
        raise Unknown("drop of vector " + v[0])
    c = E.content(st, v[1])
    acts = []
    if E.T[ety].get("nd"):
        if c[0] == "A":
            for i in range(len(c[1])):
                acts.append(("d", v[1], (i,), None, ety))
        elif c[0] == "HA":
            for i in range(len(c[2])):
                j = add(c[1], i)
                acts.append(("d", v[1], (j if type(j) is int else ("ix", j),), None, ety))
        else:
            E.C.on_drop(E, st, ety, c[2] if c[0] == "OA" else None)
    acts.append(("free", v[1], "vector buffer"))
    return acts


def map_drop(E, st, alloc, proj, ty, x):
    v = E.load(st, alloc, proj)
    if v[0] == "O":
        v = E.expand(st, v)
    if v[0] == "U":
        raise UB("drop of an uninitialised map")
    c = E.content(st, v[1])
    acts = []
    kv = [x["args"][0]] + ([x["args"][1]] if MAPS[x["path"]] else [])
    if c[0] == "A":
        for i in range(len(c[1])):
            for j, t in enumerate(kv):
                if E.T[t].get("nd"):
                    acts.append(("d", v[1], (i, j), None, t))
    else:
        E.C.on_drop(E, st, ty, c[2] if c[0] == "OA" else None)
    acts.append(("free", v[1], "map"))
    return acts


# modelled collections: path -> has values
MAPS = {
    "std::collections::HashMap": True,
    "std::collections::HashSet": False,
    "std::collections::BTreeMap": True,
    "std::collections::BTreeSet": False,
}
MODEL_DROP = {k: map_drop for k in MAPS}
