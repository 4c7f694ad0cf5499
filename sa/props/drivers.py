"""Typestate monitors for the two drivers (C01, C02, parts of C03 and C16).

The drivers are interpreted call by call: every public operation is applied to every abstract driver
state (up to renaming); what user code does is chosen freely at each virtual call.
"""
from collections import namedtuple

from .common import *
from engine import NIL

NH = ("Nh",)
from num import ATOMTY  # noqa: E402

ATOMTY[NH] = (1, 1 << 40)


class Base(Client):
    """ownership of the opaque values: who borrows from whom"""

    def __init__(self, P):
        self.P = P
        self.ncalls = {}
        self.frozen = False

    # ghost has: bor ((child, parent), ...), dead frozenset of tokens
    def dead(self, g, tok):
        seen = set()
        work = [tok]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            for d in g.dead:
                if prefix_of(d, t):
                    return d
            for c, p in g.bor:
                if prefix_of(c, t):
                    work.append(p)
        return None

    def use(self, st, tok, what):
        g = st.ghost
        if g is None:
            return
        d = self.dead(g, tok)
        if d is not None:
            raise Viol("C03", "%s is used although what it borrows from was dropped or is borrowed mutably again" % what, "use-after-drop:" + what)

    def touch(self, st, tok):
        g = st.ghost
        if g is not None and g.bor:
            if self.dead(g, tok) is not None:
                raise Viol("C03", "memory is accessed although its owner was dropped or is borrowed mutably again", "dangling-access")

    def on_drop(self, E, st, ty, tok):
        g = st.ghost
        if g is None:
            return
        t = tok
        if t and t[-1] == "*":
            t = t[:-1]
        if t in g.dead:
            raise Viol("C03", "a value is dropped twice", "double-drop")
        self.use(st, t, "dropped value of type %s" % E.T[ty]["p"])
        st.ghost = g._replace(dead=g.dead | {t})
        st.ev = (st.ev, "drop %s" % E.T[ty]["p"])

    def note(self, st, call, what):
        k = call.item or call.name
        self.ncalls[k] = self.ncalls.get(k, 0) + 1

    def prune(self, E, st, extra=()):
        """forget the borrows of values which do not exist any more"""
        g = st.ghost
        names, _ = reachable(E, st, [x for x in g if x is not g.bor and x is not g.dead] + list(extra))
        bor = set()
        keep = set(names)

        def reach(t):
            n = set()
            names_in(t, n)
            return not n or bool(n & names)

        def parents(p, seen):
            """the closest ancestors which are reachable or dead"""
            if p in seen:
                return
            seen.add(p)
            if reach(p) or any(prefix_of(d, p) for d in g.dead):
                yield p
                return
            up = [q for c, q in g.bor if prefix_of(c, p)]
            for q in up:
                yield from parents(q, seen)

        for c, p in g.bor:
            n = set()
            names_in(c, n)
            if n & names:
                for q in parents(p, set()):
                    bor.add((c, q))
                    names_in(q, keep)

        def alive(t):
            n = set()
            names_in(t, n)
            return bool(n & keep)

        dead = frozenset(d for d in g.dead if alive(d))
        st.ghost = g._replace(bor=frozenset(bor), dead=dead)
        for a in list(st.heap):
            if isinstance(a, tuple) and a[0] == "om":
                n = set()
                names_in(a, n)
                if n and not n & keep:
                    del st.heap[a]
        ev = st.ev
        n = 0
        while ev is not None and n < 400:
            ev = ev[0]
            n += 1

    def hide(self, E, st, root, hidden_depth, keep, now):
        """forgets the bottom of all stacks below `root`; hidden_depth = number of levels hidden in the spec"""
        names, allocs = reachable(E, st, [root])
        for a in allocs:
            v = st.heap.get(a)
            if v is None or v[0] not in ("A", "HA"):
                continue
            n = len(v[2]) if v[0] == "HA" else len(v[1])
            els = v[2] if v[0] == "HA" else v[1]
            h = v[1] if v[0] == "HA" else 0
            if els and all(type(x) is int for x in els):
                pass
            cut = max(n - keep, now if n > now else 0)
            if cut > 0:
                h = add(h, cut)
                els = els[cut:]
            if h == 0:
                continue
            rel = sub(h, hidden_depth)
            if type(rel) is int and -16 <= rel <= 16:
                nh = add(("y", ((NH, 1),), 0), rel)
            else:
                t = ("Nh", repr(rel)[:40])
                ATOMTY[t] = (1, 1 << 40)
                nh = ("y", ((t, 1),), 0)
            st.heap[a] = ("HA", nh, tuple(els))
        for k in list(st.dom):
            if any(at == NH or at[0] == "Nh" for at, _ in k):
                del st.dom[k]


GS = namedtuple("GS", "drv spec bor dead err own sdepth")
KEEP = 5
LEVELS = 2


class SerMon(Base):
    opens = ("open",)

    def top(self, g):
        return g.spec[-1] if g.spec else None

    def settop(self, st, *e):
        g = st.ghost
        st.ghost = g._replace(spec=g.spec[:-1] + tuple(e))

    def borrow(self, st, c, p):
        g = st.ghost
        if (c, p) not in g.bor:
            st.ghost = g._replace(bor=g.bor | {(c, p)})

    def fail(self, st, tok):
        st.ghost = st.ghost._replace(err=tok, spec=(("lost",),))

    def on_virtual(self, E, st, call):
        g = st.ghost
        m = call.item.rsplit("::", 1)[-1]
        tr = call.item.rsplit("::", 2)[-2]
        tok = call.tok
        self.note(st, call, m)
        self.use(st, tok, "receiver of %s::%s" % (tr, m))
        lost = g.spec and g.spec[-1][0] == "lost"
        spec_top = g.spec[-1] if g.spec else ("none",)
        if tr == "Serialize" and m == "descriptor":
            r = E.mk(call.destty, tok + ("desc",))
            self.borrow(st, tok + ("desc",), tok)
            return r
        if tr == "Serialize" and m == "is_optional":
            return E.mk(call.destty, tok + ("opt",))
        if tr == "Descriptor":
            return E.fresh(st, call.destty, m)
        if not lost:
            self.check_state(E, st, call, m)
        if tr == "Serialize" and m == "serialize":
            if not lost and not (spec_top[0] == "due" and prefix_of(spec_top[1], tok)):
                raise Viol("C01", "serialize() is called on a value which is not due (%s)" % self.show(spec_top), "serialize-not-due")
            k = choose(st, 5 if not E.unwind else 6)
            st.ev = (st.ev, "serialize() -> %s" % ["Err", "Atom", "Struct", "Map", "Seq", "panic"][k])
            if k == 5:
                return self.panic(st)
            cty = vfield(E, call.destty, "Ok")
            if k == 0:
                return self.error(E, st, call)
            if k == 1:
                a = (N("atom"),)
                self.borrow(st, a, tok)
                if not lost:
                    self.settop(st, ("atom", tok, a))
                return enumv(E, call.destty, "Ok", enumv(E, cty, "Atom", E.mk(vfield(E, cty, "Atom"), a)))
            kind = ["Struct", "Map", "Seq"][k - 2]
            e = (N("em"),)
            self.borrow(st, e, tok)
            st.ghost = st.ghost._replace(own=st.ghost.own | {e})
            if not lost:
                self.settop(st, ("start", kind, tok, e))
            return enumv(E, call.destty, "Ok", enumv(E, cty, kind, E.mk(vfield(E, cty, kind), e)))
        if tr == "Serialize" and m == "finish":
            if not lost and not (spec_top[0] == "fin" and spec_top[1] == tok):
                raise Viol("C01", "finish() is called on a value whose events are not complete or which was finished already (%s)" % self.show(spec_top), "finish-not-due")
            k = choose(st, 2 if not E.unwind else 3)
            st.ev = (st.ev, "finish() -> %s" % ["Ok", "Err", "panic"][k])
            if k == 2:
                return self.panic(st)
            if k == 1:
                return self.error(E, st, call)
            if not lost:
                self.settop(st)
            return enumv(E, call.destty, "Ok", ("S", ()))
        if tr in ("StructEmitter", "MapEmitter", "SeqEmitter"):
            kind = tr[:-7]
            if not lost:
                if not (spec_top[0] == "open" and spec_top[1] == kind and prefix_of(spec_top[3], tok)):
                    raise Viol("C01", "%s::%s() is called while %s" % (tr, m, self.show(spec_top)), "emitter-not-top:" + m)
                if kind == "Map" and m != {"k": "next_key", "v": "next_value"}[spec_top[4]]:
                    raise Viol("C01", "%s() is called where it is not due" % m, "map-phase:" + m)
            # what the emitter handed out before is invalid from here on
            g = st.ghost
            has_none = m != "next_value"
            k = choose(st, (3 if has_none else 2) + (1 if E.unwind else 0))
            names = ["Err", "Some"] + (["None"] if has_none else []) + ["panic"]
            st.ev = (st.ev, "%s::%s() -> %s" % (tr, m, names[k]))
            inval = frozenset(c for c, p in g.bor if p == tok)
            st.ghost = st.ghost._replace(dead=st.ghost.dead | inval)
            what = names[k]
            if what == "panic":
                return self.panic(st)
            if what == "Err":
                return self.error(E, st, call)
            oty = vfield(E, call.destty, "Ok")
            if what == "None":
                if not lost:
                    self.settop(st, ("end", kind, spec_top[2]))
                return enumv(E, call.destty, "Ok", enumv(E, oty, "None"))
            h = (N("h"),)
            self.borrow(st, h, tok)
            st.ghost = st.ghost._replace(own=st.ghost.own | {h})
            if m == "next_value":
                v = E.mk(oty, h)
            else:
                ity = vfield(E, oty, "Some")
                if kind == "Struct":
                    kt = (N("key"),)
                    self.borrow(st, kt, tok)
                    fs = E.P.fields(ity)
                    v = ("S", (E.mk(fs[0], kt), E.mk(fs[1], h)))
                else:
                    v = E.mk(ity, h)
                v = enumv(E, oty, "Some", v)
            if not lost:
                t = spec_top
                if kind == "Map":
                    t = t[:4] + ("v" if m == "next_key" else "k",)
                new = (t, ("due", h))
                if kind == "Struct":
                    new += (("key", kt),)
                self.settop(st, *new)
            return enumv(E, call.destty, "Ok", v)
        raise Unknown("virtual call of " + call.item)

    def error(self, E, st, call):
        e = (N("err"),)
        v = enumv(E, call.destty, "Err", E.mk(vfield(E, call.destty, "Err"), e))
        self.fail(st, e)
        return v

    def panic(self, st):
        self.fail(st, ("panic",))
        raise Panic("user code panics")

    def show(self, t):
        return {
            "due": "a value is waiting to be serialized",
            "atom": "an atom was not delivered yet",
            "key": "a struct key was not delivered yet",
            "start": "a container start was not delivered yet",
            "open": "the innermost %s is open",
            "end": "a container end was not delivered yet",
            "fin": "a value is waiting to be finished",
            "none": "nothing is left to serialize",
            "lost": "after an error",
        }[t[0]] % ((t[1],) if t[0] == "open" else ())

    def depth(self, g):
        d = 0
        for e in g.spec:
            if e[0] == "hid":
                d = add(d, e[1])
            elif e[0] in ("open", "end"):
                d = add(d, 1)
        return d

    def topdesc(self, g):
        for e in reversed(g.spec):
            if e[0] in ("open", "end"):
                return e[2]
            if e[0] == "hid":
                return "hidden"
        return None

    def check_state(self, E, st, call, m):
        s = call.args[-1]
        self.check_state_ptr(E, st, s, "in " + m)

    def check_state_ptr(self, E, st, s, when):
        g = st.ghost
        outs = sub_eval(self.P, st, "root_ser_state", [s])
        self.check_outs(E, st, outs, g, when, "C01")

    def check_outs(self, E, st, outs, g, when, prop):
        for o in outs:
            if o.kind == "unknown":
                E.note_unknown("state: " + o.msg)
                continue
            if o.kind != "ret":
                raise Viol(prop, "the state cannot be inspected: %s %s" % (o.kind, o.msg), "state-broken")
            d, t = o.val[1]
            want = self.depth(g)
            x = sub(d, want) if is_num(d) else None
            if x != 0 and not self.depth_ok(g, d):
                raise Viol(prop, "the state reports a depth of %s with %s containers open (%s)" % (show_num(d), show_num(want), when), "depth")
            w = self.topdesc(g)
            self.check_desc(E, o.st, t, w, when, prop)

    def depth_ok(self, g, d):
        return False

    def check_desc(self, E, st, t, w, when, prop):
        if w == "hidden":
            return
        if w is None:
            if t[0] != "E" or t[1] != 0:
                raise Viol(prop, "the state has a descriptor although no container is open (%s)" % when, "topdesc")
            return
        if t[0] != "E" or t[1] != 1:
            raise Viol(prop, "the state has no descriptor although a container is open (%s)" % when, "topdesc")
        r = t[2][0]
        if w == "any":
            return
        if not self.is_desc(r, w):
            raise Viol(prop, "the topmost descriptor is not the one of the innermost open container (%s)" % when, "topdesc")

    def is_desc(self, r, v):
        if r[0] == "O":
            return prefix_of(v + ("desc",), r[2])
        return r[0] == "R" and type(r[1]) is tuple and r[1][0] == "om" and r[1][1] == v + ("desc",)


def show_num(d):
    return str(d) if type(d) is int else "N+%d" % d[2] if len(d[1]) == 1 else "?"


class Explore:
    """applies the operations of a driver to all its states"""

    def __init__(self, P, mon, rep, unwind=False, maxstates=20000):
        self.P = P
        self.mon = mon
        self.rep = rep
        self.E = Engine(P, mon)
        self.E.unwind = unwind
        self.seen = set()
        self.work = []
        self.nstates = 0
        self.after_error = 1  # operations which are tried after an error (besides dropping)
        self.ntrans = 0
        self.maxstates = int(os.environ.get("MAXS", maxstates))

    def violation(self, prop, key, msg, o, op):
        where = o.where or ""
        self.rep.add("%s:%s:%s" % (prop, key, func_of(where)), "%s: %s" % (where or op, msg), "\n".join(["operation: " + op] + trace_of(self.E, o)))

    def push(self, st):
        k = self.E.canon(st, (st.ghost.drv,))
        if k in self.seen:
            return
        self.seen.add(k)
        self.nstates += 1
        if self.nstates > self.maxstates:
            self.E.note_unknown("too many driver states")
            return
        self.work.append(st)

    def call(self, st, root, args, op):
        s = st.copy()
        s.ev = (s.ev, "== " + op)
        self.E.start(s, root, args)
        self.ntrans += 1
        return self.E.run(s)

    def bad(self, o, op, prop):
        """reports outcomes which are violations on their own; true if the path ends here"""
        if o.kind == "ub":
            v = o.msg
            self.violation("C03", ubkey(v), v, o, op)
            return True
        if o.kind in ("unknown", "budget"):
            return True
        return False


def ubkey(m):
    import re

    return re.sub(r"[#\d/].*", "", m).strip().replace(" ", "-")[:80]


# Viol carries the property; the engine flattens exceptions to outcomes, so keep the kind in the text
def install_viol(E):
    pass


def explore_ser(P, rep, unwind=False, levels=LEVELS):
    mon = SerMon(P)
    X = Explore(P, mon, rep, unwind)
    E = X.E
    st = St()
    root = E.mk(P.argty("root_ser_new"), ("root",))
    st.ghost = None
    E.start(st, "root_ser_new", [root])
    roottok = ("root",)
    for o in E.run(st):
        if X.bad(o, "SerializeDriver::new", "C01"):
            continue
        if o.kind != "ret":
            X.violation("C01", "new-panics", "SerializeDriver::new does not return: %s" % o.msg, o, "new")
            continue
        s = o.st
        a = E.alloc(s, o.val, "drv")
        s.ghost = GS(("R", a, (), None), (("due", roottok),), frozenset(), frozenset(), None, frozenset(), 0)
        X.push(s)
    drvty = P.argty("root_ser_drop")
    while X.work:
        st = X.work.pop()
        ser_ops(X, st, mon, drvty, levels)
    return X


def gg(st):
    return st.ghost


def ser_ops(X, st, mon, drvty, levels):
    E = X.E
    P = X.P
    # ---- next
    if st.ghost.err is not None and st.ghost.sdepth >= X.after_error:
        return drop_driver(X, st, mon, drvty, "SerializeDriver")
    for o in X.call(st, "root_ser_next", [st.ghost.drv], "next()"):
        g = o.st.ghost
        if viol_outcome(X, o, "next()", "C01"):
            continue
        lost = bool(g.spec) and g.spec[-1][0] == "lost"
        op = "next()"
        if o.kind in ("panic", "unwound"):
            if not lost:
                X.violation("C01", "panic", "the driver panics: %s" % o.msg, o, op)
            elif o.kind == "unwound":
                after(X, o.st, mon, levels)
            continue
        rty = P.ret("root_ser_next")
        v = expand1(E, o.st, o.val)
        if vname(E, rty, v) == "Err":
            if g.err is None:
                X.violation("C01", "invented-error", "next() returns an error although no user code failed", o, op)
                continue
            if g.err != "past" and g.err[0] != "panic" and not same(E, o.st, v[2][0], E.mk(vfield(E, rty, "Err"), g.err)):
                X.violation("C16", "other-error", "next() returns another error than the one user code returned", o, op)
            after(X, o.st, mon, levels)
            continue
        if g.err is not None and g.err != "past":
            X.violation("C01", "swallowed-error", "an error returned by user code is not returned by next()", o, op)
            X.violation("C16", "swallowed-error", "an error returned by user code is not returned by next()", o, op)
            continue
        if lost:
            after(X, o.st, mon, levels)
            continue
        opt = expand1(E, o.st, v[2][0])
        if opt[1] == 0:
            if g.spec:
                X.violation("C01", "early-end", "the end of the stream is reported while %s" % mon.show(g.spec[-1]), o, op)
                continue
            rep_sample(X, "next() -> None at the end")
            after(X, o.st, mon, levels)
            continue
        ev, desc, state = opt[2][0][1]
        try:
            ser_event(X, o, mon, ev, desc, state)
        except Fork as f:
            E.note_unknown("event not determined")
            continue
        except Viol as e:
            X.violation(e.prop, e.key, e.msg, o, op)
            continue
        except UB as e:
            X.violation("C03", ubkey(str(e)), "%s" % e, o, op)
            continue
        after(X, o.st, mon, levels)
    # ---- state
    for o in X.call(st, "root_ser_driver_state", [st.ghost.drv], "state()"):
        if viol_outcome(X, o, "state()", "C01"):
            continue
        if o.kind == "ret" and not (o.st.ghost.spec and o.st.ghost.spec[-1][0] == "lost"):
            try:
                mon.check_state_ptr(E, o.st, o.val, "between two steps")
            except Viol as e:
                X.violation(e.prop, e.key, e.msg, o, "state()")
    # ---- drop
    drop_driver(X, st, mon, drvty, "SerializeDriver")


def drop_driver(X, st, mon, drvty, what):
    E = X.E
    s = st.copy()
    s.ev = (s.ev, "== drop of the driver")
    g = s.ghost
    s.ghost = g._replace(spec=(("lost",),))
    E.start_drop(s, g.drv, drvty)
    X.ntrans += 1
    for o in E.run(s):
        if viol_outcome(X, o, "drop of the %s" % what, "C03"):
            continue
        if o.kind in ("panic", "unwound"):
            X.violation("C03", "drop-panics", "dropping the driver panics: %s" % o.msg, o, "drop")
            continue
        g2 = o.st.ghost
        left = [t for t in g2.own if not leaked_ok(E, o.st, g2, t)]
        if left:
            X.violation("C03", "not-dropped", "a value which the driver owns is not dropped with it", o, "drop of the %s" % what)


def leaked_ok(E, st, g, tok):
    if tok in g.dead or any(prefix_of(tok, d) for d in g.dead):
        return True
    v = st.exp.get(tok)
    # handles which only borrow need no drop
    if v is not None and tok[0].label in ("h", "root"):
        return v != 1
    # hidden
    return False


def viol_outcome(X, o, op, prop):
    if o.kind == "ub":
        m = o.msg
        p, key = "C03", ubkey(m)
        if m.startswith("["):
            p, rest = m[1:].split(":", 1)
            key, m = rest.split("] ", 1)
        X.violation(p, key, m, o, op)
        return True
    if o.kind in ("unknown", "budget"):
        return True
    return False


def rep_sample(X, s):
    X.rep.sample(s)


def ser_event(X, o, mon, ev, desc, state):
    E, st = X.E, o.st
    g = st.ghost
    ety = X.P.find_ty("deser::Event<'_>")
    ev = expand1(E, st, ev)
    name = vname(E, ety, ev)
    t = g.spec[-1] if g.spec else ("none",)
    kinds = {"Seq": ("SeqStart", "SeqEnd"), "Map": ("MapStart", "MapEnd"), "Struct": ("MapStart", "MapEnd")}
    what = "%s is reported while %s" % (name, mon.show(t))
    if t[0] == "atom":
        if name != "Atom" or not same(E, st, ev[2][0], E.mk(vfield(E, ety, "Atom"), t[2])):
            raise Viol("C01", what + " (an atom is due, with the value serialize() returned)", "wrong-event")
        mon.use(st, t[2], "the delivered atom")
        need = t[1]
        new = (("fin", t[1]),)
    elif t[0] == "key":
        if name != "Atom" or not is_key_atom(X, st, ev[2][0], t[1]):
            raise Viol("C01", what + " (the key of the struct field is due)", "wrong-event")
        mon.use(st, t[1], "the delivered key")
        need = None
        new = ()
    elif t[0] == "start":
        if name != kinds[t[1]][0]:
            raise Viol("C01", what, "wrong-event")
        need = t[2]
        new = (("open", t[1], t[2], t[3], "k"),)
    elif t[0] == "end":
        if name != kinds[t[1]][1]:
            raise Viol("C01", what, "wrong-event")
        need = t[2]
        new = (("fin", t[2]),)
    else:
        raise Viol("C01", what, "wrong-event")
    if need is not None:
        if not mon.is_desc(desc, need):
            raise Viol("C01", "the descriptor reported with %s is not the one of its value" % name, "event-descriptor")
        mon.use(st, need + ("desc",), "the delivered descriptor")
    X.rep.sample("next() -> %s [%s]" % (name, t[0]))
    mon.settop(st, *new)
    X.rep.inc("events checked")
    mon.check_state_ptr(E, st, state, "at %s" % name)


def is_key_atom(X, st, a, kt):
    E = X.E
    aty = vfield(E, X.P.find_ty("deser::Event<'_>"), "Atom")
    if a[0] != "E" or vname(E, aty, a) != "Str":
        return False
    cow = a[2][0]
    import models

    if cow[0] == "O":
        return prefix_of(kt, cow[2])
    if cow[0] != "E":
        return False
    if cow[1] == 0:
        r = cow[2][0]
    else:
        r = None
        v = models.getvecv(E, st, cow[2][0])
        return type(v[1]) is tuple and v[1][0] == "om" and prefix_of(kt, v[1][1])
    if r[0] == "O":
        r = E.expand(st, r)
    if r[0] != "R" or type(r[1]) is not tuple or r[1][0] != "om" or not prefix_of(kt, r[1][1]):
        return False
    w = models.whole(E, st, r)
    return w is not None


def after(X, st, mon, levels):
    """a state between two calls: forget what is not needed and go on"""
    E = X.E
    g = st.ghost
    err = "past" if g.err is not None else None
    spec = g.spec
    opens = [i for i, e in enumerate(spec) if e[0] in mon.opens]
    hid = spec[0][1] if spec and spec[0][0] == "hid" else 0
    now = 0
    if len(opens) > levels:
        n = now = len(opens) - levels
        cut = opens[n]
        spec = (("hid", add(hid, n)),) + spec[cut:]
        hid = add(hid, n)
    st.ghost = g._replace(err=err, spec=spec, sdepth=g.sdepth + 1 if err else 0)
    if hid != 0:
        # the handles of hidden values are not visible any more
        g = st.ghost
        names, _ = reachable(E, st, [g.drv, g.spec])
        mon.hide(E, st, g.drv, hid, KEEP, now)
        if type(hid) is not int or hid >= 1:
            st.ghost = st.ghost._replace(spec=(("hid", ("y", ((NH, 1),), 0)),) + spec[1:])
    mon.prune(E, st)
    g = st.ghost
    names, _ = reachable(E, st, [g.drv, g.spec])
    own = frozenset(t for t in g.own if t not in g.dead and (hid == 0 or t[0] in names))
    st.ghost = g._replace(own=own)
    st.ev = cut_ev(st.ev)
    X.push(st)


def cut_ev(ev):
    return ev


# ------------------------------------------------------------------ deserialization
GD = namedtuple("GD", "drv spec bor dead err own sdepth todo ev atok")
SINK_METHODS = ("atom", "map", "seq", "next_key", "next_value", "finish", "value_for_key", "unexpected_atom")


class DeMon(SerMon):
    opens = ("map", "seq")

    def __init__(self, P):
        SerMon.__init__(self, P)
        self.nullidx = [i for i, v in enumerate(P.T[P.find_ty("deser::de::SinkHandle<'_>")]["v"]) if v[0] == "Null"]

    def isnull(self, st, h):
        return h == ("null",) or st.exp.get(h) in self.nullidx

    def skip(self, st):
        """steps which concern sinks that ignore everything are not visible"""
        g = st.ghost
        todo, spec = list(g.todo), g.spec
        while todo and todo[0][0] != "mark" and self.isnull(st, todo[0][1]):
            t = todo.pop(0)
            if t[0] == "req":
                todo = [(x[0], ("null",)) + x[2:] if x[1] == "target" else x for x in todo]
                spec = toggle(spec)
        st.ghost = g._replace(todo=tuple(todo), spec=spec)

    def on_virtual(self, E, st, call):
        g = st.ghost
        m = call.item.rsplit("::", 1)[-1]
        tr = call.item.rsplit("::", 2)[-2]
        tok = call.tok
        self.note(st, call, m)
        self.use(st, tok, "receiver of %s::%s" % (tr, m))
        lost = g.spec and g.spec[-1][0] == "lost"
        if tr == "Sink" and m == "descriptor":
            r = E.mk(call.destty, tok + ("desc",))
            self.borrow(st, tok + ("desc",), tok)
            return r
        if tr == "Descriptor" or m == "expecting":
            return E.fresh(st, call.destty, m)
        if tr != "Sink" or m not in SINK_METHODS:
            raise Unknown("virtual call of " + call.item)
        if not lost:
            self.skip(st)
            g = st.ghost
            t = g.todo[0] if g.todo else None
            if t is None:
                raise Viol("C02", "Sink::%s() is called although nothing is left to do for %s" % (m, g.ev), "unexpected-call:" + m)
            if not prefix_of(t[1], tok) or m != t[2]:
                raise Viol("C02", "Sink::%s() is called where %s() of %s is due" % (m, t[2], "the innermost container" if t[0] in ("req", "cfin") else "the current sink"), "unexpected-call:" + m)
            if m == "atom" and not same(E, st, call.args[1], E.mk(call.argtys[1] if call.argtys else self.P.find_ty("deser::Atom<'_>"), g.atok)):
                raise Viol("C02", "the sink does not receive the atom of the event", "other-atom")
            self.check_state(E, st, call, m)
        g = st.ghost
        inval = frozenset(c for c, p in g.bor if p == tok and c[-1] != "desc")
        k = choose(st, 2 + (1 if E.unwind else 0))
        st.ghost = st.ghost._replace(dead=st.ghost.dead | inval)
        st.ev = (st.ev, "Sink::%s() -> %s" % (m, ["Ok", "Err", "panic"][k]))
        if k == 2:
            return self.panic(st)
        if k == 1:
            return self.error(E, st, call)
        okty = vfield(E, call.destty, "Ok")
        g = st.ghost
        if not lost:
            t = g.todo[0]
            st.ghost = g = g._replace(todo=g.todo[1:])
        if m in ("next_key", "next_value"):
            h = (N("h"),)
            self.borrow(st, h, tok)
            g = st.ghost
            st.ghost = g._replace(own=g.own | {h})
            if not lost:
                st.ghost = st.ghost._replace(todo=tuple((x[0], h) + x[2:] if x[1] == "target" else x for x in g.todo), spec=toggle(g.spec))
            return enumv(E, call.destty, "Ok", E.mk(okty, h))
        if m == "value_for_key":
            return enumv(E, call.destty, "Ok", enumv(E, okty, "None"))
        return enumv(E, call.destty, "Ok", ("S", ()))

    def fail(self, st, tok):
        g = st.ghost
        if g.err is None:
            st.ghost = g._replace(err=tok, todo=(), spec=g.spec + (("lost",),))

    def depth(self, g):
        d = 0
        for e in g.spec:
            if e[0] == "hid":
                d = add(d, e[1])
            elif e[0] in self.opens:
                d = add(d, 1)
        return d

    def depth_ok(self, g, d):
        # while a container is finished it may count or not
        if g.todo and g.todo[0][0] == "cfin":
            return sub(d, self.depth(g)) == -1
        return False

    def topdesc(self, g):
        if g.todo and g.todo[0][0] == "cfin":
            return "hidden"
        for e in reversed(g.spec):
            if e[0] in self.opens:
                return e[1] if e[1] != ("null",) else "any"
            if e[0] == "hid":
                return "hidden"
        return None

    def check_state_ptr(self, E, st, s, when):
        outs = sub_eval(self.P, st, "root_de_state", [s])
        self.check_outs(E, st, outs, st.ghost, when, "C02")

    def check_desc(self, E, st, t, w, when, prop):
        if w not in (None, "hidden", "any"):
            # the variant of the handle tells where the sink is
            v = st.exp.get(w)
            if v in self.nullidx:
                w = "any"
            elif v is not None:
                w = w + ((v, 0),)
        SerMon.check_desc(self, E, st, t, w, when, prop)
        if w not in (None, "hidden", "any"):
            d = self.dead(st.ghost, w + ("desc",))
            if d is not None:
                raise Viol("C03", "the state refers to the descriptor of a sink which was dropped", "dangling-descriptor")


def toggle(spec):
    t = spec[-1]
    if t[0] == "map":
        return spec[:-1] + (t[:2] + ("v" if t[2] == "k" else "k",),)
    return spec


EVENTS = ("Atom", "MapStart", "MapEnd", "SeqStart", "SeqEnd")


def explore_de(P, rep, unwind=False, levels=LEVELS):
    mon = DeMon(P)
    X = Explore(P, mon, rep, unwind)
    E = X.E
    st = St()
    rt = (N("h"),)
    E.start(st, "root_de_new", [E.mk(P.argty("root_de_new"), rt)])
    for o in E.run(st):
        if viol_outcome(X, o, "DeserializeDriver::from_sink", "C02"):
            continue
        if o.kind != "ret":
            X.violation("C02", "new-panics", "DeserializeDriver::from_sink does not return: %s" % o.msg, o, "new")
            continue
        s = o.st
        a = E.alloc(s, o.val, "drv")
        s.ghost = GD(("R", a, (), None), (("rootdue", rt),), frozenset(), frozenset(), None, frozenset([rt]), 0, (), None, None)
        X.push(s)
    drvty = P.argty("root_de_drop")
    while X.work:
        de_ops(X, X.work.pop(), mon, drvty, levels)
    return X


def de_ops(X, st, mon, drvty, levels):
    E, P = X.E, X.P
    g = st.ghost
    lost = g.spec and g.spec[-1][0] == "lost"
    if not (g.err is not None and g.sdepth >= X.after_error + 1):
        for ev in EVENTS:
            emit(X, st, mon, ev, lost, levels)
    for o in X.call(st, "root_de_driver_state", [st.ghost.drv], "state()"):
        if viol_outcome(X, o, "state()", "C02"):
            continue
        if o.kind == "ret" and not lost:
            try:
                mon.check_state_ptr(E, o.st, o.val, "between two events")
            except Viol as e:
                X.violation(e.prop, e.key, e.msg, o, "state()")
    drop_driver(X, st, mon, drvty, "DeserializeDriver")


def emit(X, st, mon, ev, lost, levels):
    E, P = X.E, X.P
    g = st.ghost
    ety = P.argty("root_de_emit", 1)
    op = "emit(%s)" % ev
    s = st.copy()
    top = g.spec[-1] if g.spec else ("none",)
    legal = True
    todo = ()
    if not lost:
        if ev in ("Atom", "MapStart", "SeqStart"):
            m = {"Atom": "atom", "MapStart": "map", "SeqStart": "seq"}[ev]
            if top[0] == "rootdue":
                todo = (("val", top[1], m),)
            elif top[0] in ("map", "seq"):
                todo = (("req", top[1], "next_key" if top[0] == "map" and top[2] == "k" else "next_value"), ("val", "target", m))
            else:
                legal = False
            if ev == "Atom" and legal:
                todo += (("fin", todo[-1][1], "finish"),)
        elif top[0] == {"MapEnd": "map", "SeqEnd": "seq"}[ev] and (ev == "SeqEnd" or top[2] == "k"):
            todo = (("cfin", top[1], "finish"),)
        else:
            legal = False
    X.rep.inc("event/state pairs")
    # the target of a value event is known once it was requested
    s.ghost = g._replace(todo=todo + ((("mark", "target", "")),) if any(t[1] == "target" for t in todo) else todo, ev=op, atok=(N("atom"),))
    v = enumv(E, ety, "Atom", E.mk(vfield(E, ety, "Atom"), s.ghost.atok)) if ev == "Atom" else enumv(E, ety, ev)
    for o in X.call(s, "root_de_emit", [s.ghost.drv, v], op):
        if viol_outcome(X, o, op, "C02"):
            continue
        g2 = o.st.ghost
        lost2 = g2.spec and g2.spec[-1][0] == "lost"
        if o.kind in ("panic", "unwound"):
            if legal and not lost2:
                X.violation("C02", "panic:" + ev, "the driver panics on an event which is due: %s" % o.msg, o, op)
            elif o.kind == "unwound":
                o.st.ghost = g2._replace(err="past", spec=(("lost",),), todo=(), ev=None, atok=None)
                after(X, o.st, mon, levels)
            continue
        if not legal:
            X.violation("C02", "accepted:%s:%s" % (ev, top[0] + (top[2] if len(top) > 2 else "")), "%s is accepted although it cannot occur here (%s)" % (ev, de_show(top)), o, op)
            continue
        rty = P.ret("root_de_emit")
        r = expand1(E, o.st, o.val)
        if vname(E, rty, r) == "Err":
            if g2.err is None:
                X.violation("C02", "invented-error", "emit returns an error although no sink failed", o, op)
                continue
            if g2.err != "past":
                if g2.err[0] != "panic" and not same(E, o.st, r[2][0], E.mk(vfield(E, rty, "Err"), g2.err)):
                    X.violation("C16", "other-error", "emit returns another error than the one the sink returned", o, op)
                if not after_error_state(X, o, mon, ev, op):
                    continue
            o.st.ghost = o.st.ghost._replace(spec=(("lost",),), todo=(), ev=None, atok=None)
            after(X, o.st, mon, levels)
            continue
        if g2.err is not None and g2.err != "past":
            X.violation("C02", "swallowed-error", "an error returned by a sink is not returned by emit", o, op)
            X.violation("C16", "swallowed-error", "an error returned by a sink is not returned by emit", o, op)
            continue
        if lost2:
            after(X, o.st, mon, levels)
            continue
        mon.skip(o.st)
        g2 = o.st.ghost
        left = [t for t in g2.todo if t[0] != "mark"]
        if left:
            X.violation("C02", "missing-call:" + left[0][2], "emit(%s) returns although Sink::%s() of %s was not called" % (ev, left[0][2], "the innermost container" if left[0][0] in ("req", "cfin") else "the current sink"), o, op)
            continue
        spec = g2.spec
        target = None
        for t in g2.todo:
            if t[0] == "mark":
                target = t[1]
        if spec[-1][0] == "rootdue":
            target = spec[-1][1]
            spec = spec[:-1]
        if ev in ("MapStart", "SeqStart"):
            spec = spec + (("map", target, "k") if ev == "MapStart" else ("seq", target),)
        elif ev in ("MapEnd", "SeqEnd"):
            spec = spec[:-1]
        if not spec:
            spec = (("done",),)
        o.st.ghost = g2._replace(spec=spec, todo=(), ev=None, atok=None)
        X.rep.sample("%s at %s -> Ok" % (op, de_show(top)))
        if spec == (("hid", ("y", ((NH, 1),), 0)),):
            continue
        after(X, o.st, mon, levels)


def de_show(t):
    return {"rootdue": "the root value is due", "map": "inside a map, a %s is due" % {"k": "key", "v": "value"}.get(t[2] if len(t) > 2 else "", ""), "seq": "inside a sequence", "done": "the root value is complete", "lost": "after an error", "hid": "deep inside", "none": "?"}[t[0]]


def after_error_state(X, o, mon, ev, op):
    """after an error depth and descriptor still describe the open containers"""
    E, P = X.E, X.P
    g = o.st.ghost
    spec = tuple(e for e in g.spec if e[0] != "lost")
    alts = [spec]
    if ev in ("MapEnd", "SeqEnd"):
        alts.append(spec[:-1] if len(spec) > 1 else (("done",),))
    errs = []
    s = o.st.copy()
    s.frames = []
    for so in X.call(s, "root_de_driver_state", [g.drv], "state() after the error"):
        if so.kind != "ret":
            continue
        for a in alts:
            t = so.st.copy()
            t.ghost = g._replace(spec=a, todo=())
            try:
                mon.check_state_ptr(E, t, so.val, "after an error of the sink in %s" % op)
                return True
            except Viol as e:
                errs.append(e)
    if errs:
        e = errs[0]
        X.violation(e.prop, e.key + "-after-error", e.msg, o, op)
        return False
    return True


# ------------------------------------------------------------------ checks
ASSUME = [
    "std/alloc/core behave as modelled in sa/models.py (Vec, Box, Option, RefCell, TypeId map)",
    "user implementations of the traits are arbitrary safe code: each call returns any value, an error or (unwind runs) panics",
    "callbacks do not re-enter the driver which calls them (the borrow checker forbids it)",
]


def note(rep, X):
    rep.inc("states", X.nstates)
    rep.inc("transitions", X.ntrans)
    rep.inc("functions", len(X.E.funcs))
    rep.inc("undecided paths", sum(X.E.unknown.values()))
    rep.notes.update(X.E.unknown)
    for k, v in X.mon.ncalls.items():
        rep.inc("virtual calls of " + k, v)


def check_C01(rep, tier):
    P = prog()
    sub_ = Report("C01")
    X = explore_ser(P, sub_, unwind=False, levels=3 if tier == "thorough" else LEVELS)
    rep.samples = sub_.samples
    rep.count = sub_.count
    pick(rep, "C01", sub_)
    note(rep, X)
    return dict(
        explanation="Typestate fixpoint over the resolved MIR of SerializeDriver: every public operation is applied to every abstract driver state, with every outcome of every user callback; the event emitted and the callbacks made are compared with the protocol automaton of well-formed serialization. Deep stacks are summarised (entries below the visible top are untouched).",
        coverage=dict(rule="protocol automaton of C01: event pairing, one finish per value, keys and values alternate, fused end, depth and topmost descriptor"),
        assumptions=ASSUME,
    )


def check_C02(rep, tier):
    P = prog()
    sub_ = Report("C02")
    X = explore_de(P, sub_, unwind=False, levels=3 if tier == "thorough" else LEVELS)
    rep.samples = sub_.samples
    rep.count = sub_.count
    pick(rep, "C02", sub_)
    note(rep, X)
    return dict(
        explanation="Typestate fixpoint over the resolved MIR of DeserializeDriver: every event is emitted in every abstract driver state, with every outcome of every sink callback; sink calls are compared with the protocol automaton (request a child handle, deliver, finish), illegal events must be refused.",
        coverage=dict(rule="protocol automaton of C02: which sink call is due for each event, illegal events panic, errors returned, depth and topmost descriptor"),
        assumptions=ASSUME,
    )
