"""A small harness to apply library functions to abstract values, with opaque user types."""
from collections import namedtuple

from .common import *
from .drivers import Base, NH, ubkey

GV = namedtuple("GV", "log bor dead own mode")
OWNED = "Owned"


class Mon(Base):
    """user code with free results; every call is recorded in the ghost log"""

    mapold = True
    nullsinks = False  # may deserialize_into of user types return the ignoring sink?
    failing = True  # may user code return errors?

    def log(self, st, *e):
        g = st.ghost
        st.ghost = g._replace(log=g.log + (e,))
        st.ev = (st.ev, " ".join([str(e[0])] + [str(x) for x in e[1:]])[:300])

    def on_opaque(self, E, st, call):
        m = call.name.rsplit("::", 1)[-1]
        self.note(st, call, m)
        h = getattr(self, "o_" + m, None)
        if h is not None:
            return h(E, st, call)
        ity = call.x.get("impl_self")
        r = E.fresh(st, call.destty, m)
        self.log(st, m, call.args, r)
        return r

    def on_virtual(self, E, st, call):
        m = call.item.rsplit("::", 1)[-1]
        tr = call.item.rsplit("::", 2)[-2]
        self.note(st, call, m)
        self.use(st, call.tok, "receiver of %s::%s" % (tr, m))
        h = getattr(self, "v_" + tr + "_" + m, None) or getattr(self, "v_" + tr, None)
        if h is not None:
            return h(E, st, call, m)
        r = E.fresh(st, call.destty, m)
        self.log(st, m, (call.recv,) + tuple(call.args[1:]), r)
        return r

    def borrow(self, st, c, p):
        g = st.ghost
        if (c, p) not in g.bor:
            st.ghost = g._replace(bor=g.bor | {(c, p)})


class Sim:
    def __init__(self, P, mon, rep, prop, unwind=False):
        self.P = P
        self.mon = mon
        self.rep = rep
        self.prop = prop
        self.E = Engine(P, mon)
        self.E.unwind = unwind
        self.what = ""
        self.panics_ok = False

    def new(self, **kw):
        st = St()
        st.ghost = GV((), frozenset(), frozenset(), frozenset(), kw.get("mode"))
        return st

    def violation(self, key, msg, o=None, prop=None, where=""):
        if o is not None and o.where:
            where = o.where
        self.rep.add("%s:%s:%s:%s" % (prop or self.prop, key, self.what, func_of(where)), "%s%s: %s" % (self.what, " (%s)" % where if where else "", msg), "\n".join(trace_of(self.E, o) if o is not None else []))

    def call(self, st, root, args, op="", clear=True):
        """runs a root; yields (state, value) of the normal returns"""
        s = st.copy()
        s.frames = []
        if clear:
            s.ghost = s.ghost._replace(log=())
        s.ev = (s.ev, "== %s" % (op or root))
        self.E.start(s, root, args)
        self.rep.inc("calls")
        rty = self.P.ret(root)
        isres = self.is_result(rty)
        for t, v in self.outs(s, op or root):
            if isres:
                self.kept_errors(t, rty, v, op or root)
            yield t, v

    def is_result(self, ty):
        x = self.E.T[self.P.rep(ty)]
        return x["k"] == "adt" and x["path"].endswith("::Result")

    def kept_errors(self, st, rty, v, op):
        """C16: an error which user code returned during the call makes the call return an error"""
        for e in st.ghost.log:
            res = e[-1]
            if type(res) is not tuple or not res:
                continue
            if res[0] == "E":
                p = res[2][0] if res[1] == 1 and len(res[2]) == 1 else None
                if not (p and p[0] == "O" and self.is_error(p[1])):
                    continue
            elif res[0] == "O":
                if not self.is_result(res[1]) or st.exp.get(res[2]) == 0:
                    continue
            else:
                continue
            self.rep.inc("errors followed")
            if v == res:
                continue
            if v[0] == "E" and v[1] == 1 or v[0] == "O" and st.exp.get(v[2]) == 1:
                continue
            if v[0] == "O" and v[2] not in st.exp:
                self.E.note_unknown("the returned result is not known")
                continue
            self.violation("swallowed-error:" + str(e[0]), "%s returns success although %s failed%s" % (op, e[0], "" if res[0] == "E" or res[2] in st.exp else " or may have failed (its result is never looked at)"), Outcome("ret", st, v, "", ""), "C16")

    def is_error(self, ty):
        x = self.E.T[self.P.rep(ty)]
        return x["k"] == "adt" and x["path"].startswith("deser::") and x["path"].endswith("::Error")

    def drop(self, st, ptr, ty, op="drop"):
        s = st.copy()
        s.frames = []
        s.ev = (s.ev, "== " + op)
        self.E.start_drop(s, ptr, ty)
        yield from self.outs(s, op)

    def outs(self, s, op):
        for o in self.E.run(s):
            self.rep.inc("paths")
            if o.kind == "ub":
                if o.msg.startswith("["):
                    head, _, msg = o.msg[1:].partition("] ")
                    pr, _, key = head.partition(":")
                    self.violation(key, msg, o, pr)
                else:
                    self.violation(ubkey(o.msg), o.msg, o, "UB")
                continue
            if o.kind in ("unknown", "budget"):
                continue
            if o.kind in ("panic", "unwound"):
                if not self.panics_ok:
                    self.violation("panic", "%s panics: %s" % (op, o.msg), o)
                continue
            if o.st.ghost is not None:
                self.last = o
            yield o.st, o.val

    def holds(self, cond, st, key, msg, prop=None, where=""):
        self.rep.inc("obligations")
        if cond:
            return True
        self.violation(key, msg, Outcome("ret", st, None, "", where), prop)
        return False

    def alts(self, st, f):
        """evaluates f(st) for each case of the opaque values it looks at"""
        work = [st.copy()]
        while work:
            s = work.pop()
            try:
                r = f(s)
            except Fork as k:
                for refs in k.refs:
                    t = s.copy()
                    if t.refine(refs):
                        work.append(t)
                continue
            except Stop:
                continue
            except Unknown as e:
                self.E.note_unknown("client: " + str(e))
                continue
            yield s, r

    def result(self, st, ty, v):
        """(state, is ok, payload) for the cases of a Result value"""
        E = self.E

        def f(s):
            x = expand1(E, s, v)
            return vname(E, ty, x) == "Ok", x[2][0]

        for s, (okk, p) in self.alts(st, f):
            yield s, okk, p

    def kind(self, st, err):
        """the name of the ErrorKind of a library error"""
        E = self.E
        s = st.copy()
        s.frames = []
        s.ghost = None
        a = E.alloc(s, err, "e")
        E2 = Engine(self.P)
        E2.start(s, "root_err_kind", [("R", a, (), None)])
        outs = E2.run(s)
        if len(outs) != 1 or outs[0].kind != "ret":
            return None
        v = outs[0].val
        if v[0] != "E":
            return None
        return vname(E, self.P.ret("root_err_kind"), v)


def opaque_ptr(P, root, i, name):
    """an argument for a root function"""
    return None


def is_lib_vt(P, v):
    return v[0] == "R" and v[3] is not None and v[3][0] == "vt"


def finish_check(rep, mons, sims):
    for s in sims:
        rep.inc("undecided paths", sum(s.E.unknown.values()))
        rep.notes.update(s.E.unknown)
        rep.inc("functions", len(s.E.funcs))
    for m in mons:
        for k, v in m.ncalls.items():
            rep.inc("user calls of " + k, v)
