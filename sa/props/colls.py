"""C12: what collection sinks store."""
from .sim import *
from .values import *
from engine import NIL  # noqa: E402
from num import Dom

SEQS = ["vec", "bset", "hset", "vecu8", "vecu16", "veci8", "vecbool", "vecunit", "vecchar"]
MAPKINDS = ["bmap", "hmap"]
FIXED = dict([("t%d" % i, i) for i in range(1, 13)] + [("a%d" % i, i) for i in range(4)] + [("a3u8", 3), ("a0u8", 0), ("a2u16", 2), ("a2bool", 2), ("a2i8", 2)])
NC = 3  # elements delivered one by one before the general step


class ChildMon(Mon):
    """sinks of opaque element types remember the slot they belong to; finish() fills it"""

    mapold = True
    hidden_unknown = True

    def o_deserialize_into(self, E, st, call):
        h = N("h")
        ity = call.x.get("impl_self") if call.x else None
        slot = call.args[0]
        oty = self.P.pointee(call.argtys[0]) if call.argtys else self.P.pointee(call.x["locals"][1])
        fty = self.P.T[oty]["args"][0]
        st.ghost = st.ghost._replace(mode=(st.ghost.mode or ()) + ((h, slot, fty),))
        self.log(st, "deserialize_into", slot)
        ty = vfield(E, call.destty, "Owned")
        return enumv(E, call.destty, "Owned", E.mk(ty, (h,)))

    def child(self, st, tok):
        for h, slot, fty in st.ghost.mode or ():
            if h in tok:
                return h, slot, fty
        return None

    def v_Sink(self, E, st, call, m):
        c = self.child(st, call.tok)
        if c is None or m not in ("atom", "finish"):
            r = E.fresh(st, call.destty, m)
            self.log(st, m, (call.recv,) + tuple(call.args[1:]), r)
            return r
        self.log(st, m, call.recv)
        h, slot, fty = c
        if m == "finish":
            E.store(st, slot[1], slot[2], ("E", 1, (E.mk(fty, (("el", h),)),)))
        return enumv(E, call.destty, "Ok", ("S", ()))


def deliver(S, st, h):
    """completes the nested value of a handle: (state, element value)"""
    P, E = S.P, S.E
    hp = ("R", E.alloc(st, h, "h"), (), None)
    rty = P.ret("root_k_atom")
    for s, k in S.call(st, "root_sink_mut", [hp], "nested sink"):
        n0 = len(s.ghost.mode or ())
        c = None
        if k[0] == "R" and k[3] and k[3][0] != "vt":
            c = S.mon.child(s, k[3][1])
        alts = []
        aty = P.argty("root_k_atom", 1)
        if c is not None:
            alts.append((enumv(E, aty, "Null"), None))
        else:
            for kind, av, payload in atom_values(S, s):
                if kind not in ("Str", "Bytes"):
                    alts.append((av, (kind, payload)))
        for av, p in alts:
            for s2, r in S.call(s, "root_k_atom", [k, av, state_arg(S, "root_k_atom", 2)], "nested atom"):
                for s3, okk, _ in S.result(s2, rty, r):
                    if not okk:
                        continue
                    for s4, r4 in S.call(s3, "root_k_finish", [k, state_arg(S, "root_k_finish")], "nested finish"):
                        for s5, ok5, _ in S.result(s4, P.ret("root_k_finish"), r4):
                            if not ok5:
                                continue
                            for s6, _ in S.drop(s5, hp, P.argty("root_sink_drop"), "drop of the nested sink"):
                                if c is not None:
                                    yield s6, E.mk(c[2], (("el", c[0]),))
                                else:
                                    yield s6, elem_value(p)


def elem_value(p):
    if p is None or p[1] is None:
        return ("S", ())
    return p[1]


def el_same(S, st, a, b):
    if is_num(a) and is_num(b):
        return sub(a, b) == 0
    return same(S.E, st, a, b)


def stored(S, st, n, v):
    """(hidden, elements, hidden length) of the value in the slot"""
    E = S.E
    if FIXED.get(n) == 0 and v[0] == "U":
        return 0, []
    if v[0] == "O":
        v = E.expand(st, v)
    if v[0] in ("V", "M"):
        c = E.content(st, v[1])
        if c[0] == "A":
            return 0, list(c[1])
        if c[0] == "HA":
            return c[1], list(c[2])
        raise Unknown("content " + c[0])
    if v[0] in ("S", "A"):
        l = list(v[1])
        f = FIXED.get(n)
        if f is not None and len(l) > f and all(x == ("U",) for x in l[f:]):
            l = l[:f]  # memory behind the array
        return 0, l
    raise Unknown("value " + v[0])


class Coll:
    def __init__(self, S, name, k, hp, slot):
        self.S = S
        self.name = name
        self.k = k
        self.hp = hp
        self.slot = slot
        self.map = name in MAPKINDS
        self.set = name in ("bset", "hset")
        self.n = FIXED.get(name)

    def request(self, st, m):
        """next_key/next_value: (state, handle or None, error)"""
        S = self.S
        root = "root_k_" + m
        for s, r in S.call(st, root, [self.k, state_arg(S, root)], m):
            for s2, okk, p in S.result(s, S.P.ret(root), r):
                yield (s2, p, None) if okk else (s2, None, p)

    def element(self, st, els, hid=0):
        """one more element: (state, elements) or (state, None) on an error"""
        S = self.S
        cnt = len(els)
        for s, h, e in self.request(st, "next_key" if self.map else "next_value"):
            if h is None:
                if S.holds(self.n is not None and cnt >= self.n, s, "refused", "element %d is refused" % (cnt + 1)):
                    kd = S.kind(s, e)
                    S.holds(kd in (None, "WrongLength"), s, "error-kind", "too many elements are reported as %s" % kd)
                yield s, None
                continue
            self.empty(s, "next element requested")
            for s2, el in deliver(S, s, h):
                if not self.map:
                    yield s2, els + [el]
                    continue
                for s3, h3, e3 in self.request(s2, "next_value"):
                    if h3 is None:
                        S.holds(False, s3, "refused-value", "the value of pair %d is refused" % (cnt + 1))
                        continue
                    self.empty(s3, "value requested")
                    for s4, el4 in deliver(S, s3, h3):
                        yield s4, els + [(el, el4)]

    def empty(self, st, when):
        S = self.S
        for s, v in S.alts(st, lambda t: slot_value(S, t, self.slot)):
            S.holds(v is None, s, "stored-early", "a result is stored before the container is finished (%s)" % when)

    def finish(self, st, els, hid=0):
        S = self.S
        root = "root_k_finish"
        cnt = len(els)
        for s, r in S.call(st, root, [self.k, state_arg(S, root)], "finish after %d elements" % cnt):
            for s2, okk, p in S.result(s, S.P.ret(root), r):
                if not okk:
                    if S.holds(self.n is not None and cnt != self.n, s2, "finish-fails", "finishing fails after %d elements" % cnt):
                        kd = S.kind(s2, p)
                        S.holds(kd in (None, "WrongLength"), s2, "error-kind", "a wrong number of elements is reported as %s" % kd)
                    self.empty(s2, "failed finish")
                    continue
                if not S.holds(self.n is None or cnt == self.n, s2, "count", "%d elements are accepted" % cnt):
                    continue
                for s3, v in S.alts(s2, lambda t: slot_value(S, t, self.slot)):
                    if not S.holds(v is not None, s3, "not-stored", "finish() reports success but stores nothing after %d elements" % cnt):
                        continue
                    for s4, (h, got) in S.alts(s3, lambda t: stored(S, t, self.name, v)):
                        self.compare(s4, h, got, els, hid)
                    for s5, _ in drop_handle(S, s3, self.hp):
                        pass
                yield s2

    def compare(self, st, h, got, els, hid):
        S = self.S
        total = sub(add(h, len(got)), add(hid, len(els)))
        if not S.holds(total == 0, st, "number", "%d elements were delivered but %s are stored" % (len(els), total if type(total) is not int else len(els) + total)):
            return
        m = min(len(got), len(els))
        S.holds(m > 0 or not els, st, "hidden", "no element is visible")
        for i in range(1, m + 1):
            g, w = got[-i], els[-i]
            if self.set or self.map:
                g = g if g[0] == "S" else S.E.expand(st, g)
                if self.map:
                    S.holds(el_same(S, st, g[1][0], w[0]), st, "key", "key %d of %d is another one" % (len(els) - i + 1, len(els)))
                    S.holds(el_same(S, st, g[1][1], w[1]), st, "value", "the value of key %d of %d is another one" % (len(els) - i + 1, len(els)))
                    continue
                g = g[1][0]
            S.holds(el_same(S, st, g, w), st, "order", "element %d of %d is another one" % (len(els) - i + 1, len(els)))
        S.rep.sample("%s: %d elements in order" % (S.what, len(els)))


def hide_prefix(S, st, k, keep):
    """forgets all but the last elements of every stored list; returns how many were hidden"""
    names, allocs = reachable(S.E, st, [k])
    n = 0
    for a in allocs:
        v = st.heap.get(a)
        if isinstance(a, N) and v is not None and v[0] == "A" and len(v[1]) > keep:
            n = max(n, len(v[1]) - keep)
            st.heap[a] = ("HA", add(("y", ((NH, 1),), 0), len(v[1]) - keep), v[1][-keep:] if keep else ())
    return n


def skeleton(S, st, k, hid):
    """the state of a sink up to the names of elements and allocations"""
    ren = {}

    def r(v):
        if isinstance(v, N):
            return ren.setdefault(v, len(ren))
        if type(v) is tuple and v and v[0] == "HA":
            return ("HA", repr(sub(v[1], hid)), r(v[2]))
        if type(v) is tuple:
            if len(v) == 2 and v[0] in ("V", "M") and isinstance(v[1], N):
                return (v[0], "buf", r(st.heap.get(v[1])))
            if len(v) == 4 and v[0] == "R":
                return ("R", r(v[1]), r(v[2]), r(v[3])) + (() if v[1] in seen or seen.add(v[1]) else (r(st.heap.get(v[1])),))
            return tuple(r(e) for e in v)
        return v

    seen = set()
    return r(k)


def check_C12(rep, tier):
    P = prog()
    mon = ChildMon(P)
    S = Sim(P, mon, rep, "C12")
    E = S.E
    for name in SEQS + MAPKINDS + sorted(FIXED):
        root = "root_d_" + name
        S.what = "Deserialize for " + str(P.T[P.T[P.pointee(P.argty(root))]["args"][0]]["p"])
        fixed = FIXED.get(name)
        opened = 0
        for s, slot, k, hp in open_sink(S, root):
            C = Coll(S, name, k, hp, slot)
            C.empty(s, "sink created")
            own, other = ("root_k_map", "root_k_seq") if C.map else ("root_k_seq", "root_k_map")
            for s2, r in S.call(s, other, [k, state_arg(S, other)]):
                for s3, okk, p in S.result(s2, P.ret(other), r):
                    S.holds(not okk, s3, "other-kind", "a %s is accepted" % other[7:])
            for s2, r in S.call(s, own, [k, state_arg(S, own)]):
                for s3, okk, p in S.result(s2, P.ret(own), r):
                    if not S.holds(okk, s3, "own-kind", "a %s is refused" % own[7:]):
                        continue
                    opened += 1
                    walk(S, C, s3, fixed)
        S.holds(opened, St(), "no-sink", "no sink accepts the container")
        rep.inc("types")
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the sinks of all built-in collections: opaque elements are delivered through the sinks handed out; after each number of elements a copy of the state is finished, and the stored value must be the list of delivered elements. For growing collections the state after some elements is generalised over an arbitrary stored prefix and shown to be reproduced by one more element.",
        coverage=dict(rule="stored elements equal delivered elements in order; slot empty until finish succeeds; tuples and arrays: success iff the number fits, else WrongLength; other container kind refused"),
        assumptions=ASSUME_V + ["BTreeMap/HashMap/sets are insertion logs: equality of opaque keys is not modelled"],
    )


def walk(S, C, st, fixed):
    E = S.E
    states = [(st, [])]
    lim = (fixed + 1) if fixed is not None else NC
    k = 0
    hist = []
    while states:
        fin = 0
        for s, els in states:
            C.empty(s, "before finish")
            for _ in C.finish(s, els):
                fin += 1
            for s5, _ in drop_handle(S, s, C.hp):
                C.empty(s5, "abandoned")
        if fixed is None or k == fixed:
            S.holds(fin, St(), "never-finishes", "never finishes after %d elements" % k)
        hist.append(states)
        if k >= lim:
            break
        nxt = []
        for s, els in states:
            for s2, els2 in C.element(s, els):
                if els2 is not None:
                    nxt.append((s2, els2))
        k += 1
        states = nxt[:64]
        if fixed is None or k <= fixed:
            S.holds(states, St(), "no-element", "element %d cannot be delivered" % k)
    if fixed is not None:
        return
    # ---- general step: an arbitrary prefix is stored already
    for s, els in hist[-1]:
        s = s.copy()
        keep = 1
        hid = hide_prefix(S, s, C.k, keep)
        H = ("y", ((NH, 1),), 0)
        sk = skeleton(S, s, C.k, H)
        sk = strip(sk)
        for s2, els2 in C.element(s, els):
            if els2 is None:
                continue
            for _ in C.finish(s2, els2, H):
                S.rep.inc("inductive steps")
            t = s2.copy()
            n = hide_more(S, t, C.k, keep)
            sk2 = strip(skeleton(S, t, C.k, add(H, 1)))
            if sk2 != sk:
                S.E.note_unknown("general step of " + C.name)
        for _ in C.finish(s, els, H):
            pass


def strip(sk):
    return sk


def hide_more(S, st, k, keep):
    names, allocs = reachable(S.E, st, [k])
    n = 0
    for a in allocs:
        v = st.heap.get(a)
        if isinstance(a, N) and v is not None and v[0] == "HA" and len(v[2]) > keep:
            c = len(v[2]) - keep
            st.heap[a] = ("HA", add(v[1], c), v[2][c:])
    return n
