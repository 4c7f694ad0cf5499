"""C25: state extensions."""
from .sim import *

OPS = ["get", "get1", "get_mut", "get_mut1"]


class EMon(Mon):
    failing = False
    mapold = True

    def __init__(self, P):
        super().__init__(P)
        self.models = dict(self.models)
        for n in ("std::any::type_name", "core::any::type_name"):
            self.models[n] = self.type_name

    def type_name(self, E, st, c):
        # different types may have the same name
        key = ("k", "type name")
        E.P.constmem[key] = ("A", tuple(b"T"))
        return ("R", key, (), ("len", 1))


def op(S, st, side, o, state):
    """one request; yields (state, pointer to the extension) with the borrow already returned"""
    sfx = "_mut" if "mut" in o else ""
    n = "1" if o.endswith("1") else ""
    for s, r in S.call(st, "root_ext_%s_%s" % (side, o), [state], "%s()" % o):
        made = [e for e in s.ghost.log if e[0] == "default"]
        a = E_alloc(S, s, r)
        for s2, p in S.call(s, "root_ext_deref%s%s" % (sfx, n), [a], "use"):
            v = S.E.load(s2, p[1], p[2])
            for s3, _ in S.call(s2, "root_ext_drop%s%s" % (sfx, n), [S.E.load(s2, a[1], a[2])], "release"):
                yield s3, p, v, made


def E_alloc(S, st, v):
    return ("R", S.E.alloc(st, v, "ref"), (), None)


def explore(S, side, state, st, depth, between):
    """all request sequences; the ghost mode holds {type: (pointer, value)}"""
    if depth == 0:
        return
    for o in OPS:
        ty = "1" if o.endswith("1") else "0"
        for s, p, v, made in op(S, st, side, o, state):
            known = dict(s.ghost.mode or ())
            S.rep.inc("requests")
            if ty in known:
                S.holds(not made, s, "recreated", "%s() creates the value again" % o)
                S.holds(same(S.E, s, v, known[ty]), s, "other-value", "%s() returns another value than the last request for this type" % o)
            else:
                S.holds(len(made) == 1, s, "no-default", "the first %s() does not create the value from Default" % o)
                S.holds(any(same(S.E, s, v, e[-1]) for e in made), s, "not-default", "the first %s() does not return the value made by Default" % o)
            cur = v
            if "mut" in o:
                cur = S.E.mk(S.P.pointee(S.P.ret("root_ext_deref_mut" + ("1" if ty == "1" else ""))), (N("changed"),))
                S.E.store(s, p[1], p[2], cur)
            known[ty] = cur
            s.ghost = s.ghost._replace(mode=tuple(sorted(known.items())))
            nxt = [(s, state)]
            if between is not None and depth > 1:
                nxt += list(between(S, s))
            for t, stt in nxt:
                explore(S, side, stt, t, depth - 1, between if t is s else None)


def ser_between(S, st):
    """the driver moves on"""
    for s, r in S.call(st, "root_ser_next", [st.ghost.own], "next()"):
        for s2, p in S.call(s, "root_ser_driver_state", [s.ghost.own], "state()"):
            yield s2, p


def de_between(S, st):
    E, P = S.E, S.P
    ety = P.argty("root_de_emit", 1)
    for ev in ("Atom", "MapStart", "SeqStart"):
        s = st.copy()
        v = enumv(E, ety, ev, *([E.mk(vfield(E, ety, ev), (N("atom"),))] if ev == "Atom" else []))
        for s1, r in S.call(s, "root_de_emit", [st.ghost.own, v], "emit(%s)" % ev):
            for s2, p in S.call(s1, "root_de_driver_state", [s1.ghost.own], "state()"):
                yield s2, p


def check_C25(rep, tier):
    P = prog()
    mon = EMon(P)
    S = Sim(P, mon, rep, "C25")
    S.panics_ok = False
    E = S.E
    depth = 4 if tier == "thorough" else 3
    for side, new, between in (("ser", "root_ser_new", ser_between), ("de", "root_de_new", de_between)):
        S.what = {"ser": "SerializerState", "de": "DeserializerState"}[side]
        st = S.new()
        arg = E.mk(P.argty(new), (N("x"),))
        for s, d in S.call(st, new, [arg], "new"):
            a = ("R", E.alloc(s, d, "drv"), (), None)
            s.ghost = s.ghost._replace(own=a)
            for s2, p in S.call(s, "root_%s_driver_state" % side, [a], "state()"):
                explore(S, side, p, s2, depth, between)
        rep.sample("%s: request sequences of length %d over two types, shared and mutable" % (S.what, depth))
    effects(P, rep)
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the extension requests of both states: every sequence of shared and mutable requests for two types (with steps of the driver in between) is interpreted; the first request for a type must store a value made by Default, later ones must return that value (with the changes made through mutable requests), whatever was requested for the other type. In addition no function of the library may overwrite, move out or empty extensions (or a state that owns them) behind a reference.",
        coverage=dict(rule="Default called once per type; same value on every later request; driver steps leave the extensions alone", sequence_length=depth),
        assumptions=["std operations behave as documented (modelled); types have distinct TypeIds", "borrows handed out are returned before the next request"],
    )


# ---- nothing else replaces the extensions
FORGET = ("clear", "remove", "remove_entry", "retain", "drain", "extract_if", "into_iter", "into_keys", "into_values")


def contains_ext(P, memo, t):
    t = P.rep(t)
    if t in memo:
        return memo[t]
    memo[t] = False
    x = P.T[t]
    r = False
    if x["k"] == "adt":
        if x["path"] == "deser::extensions::Extensions":
            r = True
        elif x["path"].startswith("deser") or x["path"].split("::")[0] in ("std", "core", "alloc") and x["path"].rsplit("::", 1)[-1] in ("Option", "ManuallyDrop", "RefCell", "Cell", "MaybeUninit", "UnsafeCell"):
            try:
                if x["ak"] == "struct":
                    fs = P.fields(t)
                else:
                    fs = [a for a in x.get("args", ()) if type(a) is int]
            except (KeyError, Unknown, TypeError):
                fs = []
            r = any(type(f) is int and contains_ext(P, memo, f) for f in fs)
    elif x["k"] == "tuple":
        r = any(contains_ext(P, memo, f) for f in x["f"])
    memo[t] = r
    return r


def place_type(P, x, pl):
    t = x["locals"][pl[0]]
    for e in pl[1:]:
        if t is None:
            return None
        if e == "*":
            t = P.pointee(t)
        elif e[0] == "f":
            t = e[2]
        elif e[0] == "v":
            pass
        else:
            return None
    return t


def effects(P, rep):
    """no function of the library overwrites, moves out or empties extensions behind a reference"""
    memo = {}
    n = 0
    for i, x in enumerate(P.I):
        if not x.get("blocks") or not x["crate"].startswith("deser"):
            continue
        name = x.get("full") or x["name"]
        n += 1
        for b, (stmts, term, loc, _) in enumerate(x["blocks"]):
            for s in stmts:
                if s[0] == "=" and "*" in s[1][1:]:
                    t = place_type(P, x, s[1])
                    rep.inc("writes through references")
                    if t is not None and contains_ext(P, memo, t):
                        rep.add("C25:overwritten:" + name, "%s (%s): extensions are overwritten through a reference" % (name, loc))
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "m" and "*" in s[2][1][1][1:]:
                    t = place_type(P, x, s[2][1][1])
                    if t is not None and contains_ext(P, memo, t):
                        rep.add("C25:moved:" + name, "%s (%s): extensions are moved out of a reference" % (name, loc))
            if term[0] == "call" and term[1][0] == "inst":
                c = P.I[term[1][1]]
                cn = c["name"]
                last = cn.rsplit("::", 1)[-1]
                if cn.startswith(("std::mem::", "core::mem::", "std::ptr::", "core::ptr::")) and last in ("replace", "swap", "take", "drop_in_place", "write", "read"):
                    for a in c.get("args", ()):
                        if type(a) is int and contains_ext(P, memo, a):
                            rep.add("C25:overwritten:" + name, "%s (%s): extensions are replaced by %s" % (name, loc, last))
                if last in FORGET and "HashMap" in cn or last in FORGET and "BTreeMap" in cn:
                    if "TypeKey" in (c.get("full") or "") and not name.startswith("<deser::extensions") and not x["kind"] == "drop":
                        rep.add("C25:forgotten:" + name, "%s (%s): extensions are removed by %s" % (name, loc, last))
    rep.inc("functions searched for writes", n)
