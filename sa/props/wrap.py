"""C11: wrappers of deserializables."""
from .sim import *
from .values import *
from .colls import skeleton

WRAP = {
    "root_d_opt": "opt",
    "root_d_box": "box",
    "root_d_optbox": "opt box",
    "root_d_boxopt": "box opt",
    "root_d_newtype": "new",
    "root_d_newtypeg": "new",
    "root_d_newtypeopt": "new opt",
    "root_d_optnewtype": "opt new",
}
SCRIPTS = [
    "atom finish",
    "map finish",
    "seq finish",
    "map next_key next_value next_key next_value finish",
    "map next_key next_value value_for_key next_key next_value finish",
    "seq next_value next_value next_value finish",
    "value_for_key finish",
    "value_for_key value_for_key finish",
    "value_for_key value_for_key value_for_key finish",
    "finish",
]


class WMon(Mon):
    """an opaque inner sink: every outcome, and the slot may be filled at any point"""

    failing = True

    def o_deserialize_into(self, E, st, call):
        h = N("inner")
        slot = call.args[0]
        oty = self.P.pointee(call.argtys[0]) if call.argtys else self.P.pointee(call.x["locals"][1])
        fty = self.P.T[oty]["args"][0]
        st.ghost = st.ghost._replace(mode=(h, slot, fty, None))
        return enumv(E, call.destty, "Owned", E.mk(vfield(E, call.destty, "Owned"), (h,)))

    def fill(self, E, st, at):
        h, slot, fty, old = st.ghost.mode
        el = E.mk(fty, (N("result"),))
        E.store(st, slot[1], slot[2], ("E", 1, (el,)))
        st.ghost = st.ghost._replace(mode=(h, slot, fty, el))

    def v_Sink(self, E, st, call, m):
        args = tuple(call.args[1:])
        if m in ("descriptor", "expecting"):
            r = E.fresh(st, call.destty, m)
            self.log(st, m, (call.tok,) + args, r)
            return r
        okty = vfield(E, call.destty, "Ok")
        # 0 error, 1 success, 2 success and the slot is filled / nothing for this key
        k = choose(st, 3 if m in ("atom", "finish", "value_for_key") else 2)
        if k == 0:
            r = enumv(E, call.destty, "Err", E.mk(vfield(E, call.destty, "Err"), (N("err"),)))
        elif m in ("next_key", "next_value"):
            r = enumv(E, call.destty, "Ok", E.mk(okty, (N("nested"),)))
        elif m == "value_for_key":
            if k == 1:
                r = enumv(E, call.destty, "Ok", enumv(E, okty, "Some", E.mk(vfield(E, okty, "Some"), (N("nested"),))))
            else:
                r = enumv(E, call.destty, "Ok", enumv(E, okty, "None"))
        else:
            if k == 2:
                self.fill(E, st, m)
            r = enumv(E, call.destty, "Ok", ("S", ()))
        self.log(st, m, (call.tok,) + args, r)
        return r


SINKM = ("atom", "map", "seq", "next_key", "next_value", "value_for_key", "finish", "descriptor", "expecting")


def forwarded(S, st, m, args, r, inner, none_ok=False):
    """the last call must have been handed on to the inner sink; returns True if it was"""
    E = S.E
    calls = [e for e in st.ghost.log if e[0] in SINKM]
    if not calls and none_ok:
        return False
    if not S.holds(len(calls) == 1 and calls[0][0] == m, st, "calls:" + m, "%s leads to the calls %s of the wrapped sink" % (m, " ".join(c[0] for c in calls) or "(none)")):
        return None
    _, a, res = calls[0]
    if not S.holds(prefix_of((inner,), a[0]), st, "receiver:" + m, "%s is not handed to the wrapped sink" % m):
        return None
    for i, (x, y) in enumerate(zip(a[1:], args)):
        for s, (p, q) in S.alts(st, lambda t: (x, y)):
            S.holds(same(E, s, p, q), s, "argument:" + m, "argument %d of %s is another one" % (i, m))
    S.holds(same(E, st, res, r), st, "result:" + m, "the answer of the wrapped sink to %s is changed" % m)
    return True


def unwrap(S, st, kinds, v):
    """the innermost value, or None if an option is None: (value, complete)"""
    E = S.E
    for k in kinds:
        if k == "opt":
            v = expand1(E, st, v)
            if v[1] == 0:
                return None
            v = v[2][0]
        elif k == "box":
            if v[0] == "O":
                v = E.expand(st, v)
            v = E.load(st, v[1], v[2])
        elif k == "new":
            if v[0] == "O":
                v = E.expand(st, v)
            if v[0] == "S":
                v = v[1][0]
    return v


def one_field(S, v):
    return v


def run_script(S, root, kinds, script):
    P, E = S.P, S.E
    ops = script.split()
    opt = "opt" in kinds
    for s, slot, k, hp in open_sink(S, root):
        if not S.holds(s.ghost.mode is not None, s, "no-inner", "the wrapped sink is not created"):
            continue
        states = [(s, False, False)]  # active, null answered
        for i, m in enumerate(ops):
            nxt = []
            for s, active, null in states:
                for t, act, nul, go in one_op(S, s, k, slot, hp, m, kinds, opt, active, null):
                    if go:
                        nxt.append((t, act, nul))
            states = nxt
            S.rep.inc("script steps")
        S.holds(states, St(), "script", "the sequence %s never succeeds" % script)
        yield states, slot, k, hp


def one_op(S, s, k, slot, hp, m, kinds, opt, active, null):
    P, E = S.P, S.E
    inner = s.ghost.mode[0]
    # the queries are handed on in every state
    for q in ("descriptor", "expecting"):
        for t, r in S.call(s, "root_k_" + q, [k], q):
            forwarded(S, t, q, (), r, inner)
    root = "root_k_" + m
    rty = P.ret(root)
    if m == "atom":
        cases = [([k, av, state_arg(S, root, 2)], kind) for kind, av, _ in atom_values(S, s)]
    elif m == "value_for_key":
        cases = [([k, E.mk(P.argty(root, 1), (N("key"),)), state_arg(S, root, 2)], None)]
    else:
        cases = [([k, state_arg(S, root)], None)]
    for args, kind in cases:
        for t, r in S.call(s, root, args, m + (" %s" % kind if kind else "")):
            nul = null
            if opt and m == "atom" and kind == "Null":
                calls = [e for e in t.ghost.log if e[0] in SINKM]
                S.holds(not calls, t, "null", "null is handed to the sink wrapped by Option")
                for t2, okk, _ in S.result(t, rty, r):
                    if S.holds(okk, t2, "null-error", "null is refused by Option"):
                        yield t2, active, True, True
                continue
            if m == "finish" and opt and not active:
                # nothing was handed on: there is nothing to finish
                calls = [e for e in t.ghost.log if e[0] in SINKM]
                S.holds(not calls, t, "finish-none", "the wrapped sink is finished although it did not receive anything")
                for t2, okk, _ in S.result(t, rty, r):
                    if S.holds(okk, t2, "none-error", "finish fails for None"):
                        result(S, t2, slot, kinds, None)
                        yield t2, active, nul, True
                continue
            fw = forwarded(S, t, m, args[1:], r, inner)
            if not fw:
                continue
            for t2, okk, p in S.result(t, rty, r):
                act = active
                if okk and m in ("atom", "map", "seq"):
                    act = True
                if okk and m == "value_for_key":
                    for t3, o in S.alts(t2, lambda u: expand1(E, u, p)):
                        yield t3, active or o[1] == 1, nul, True
                    continue
                if okk and m == "finish":
                    result(S, t2, slot, kinds, t2.ghost.mode[3])
                    for _ in drop_handle(S, t2, hp):
                        result(S, _[0], slot, kinds, t2.ghost.mode[3])
                yield t2, act, nul, okk


def result(S, st, slot, kinds, el):
    """the output slot holds exactly the wrapped result"""
    E = S.E
    for s, v in S.alts(st, lambda t: slot_value(S, t, slot)):
        if el is None:
            if "opt" in kinds and v is not None:
                for s2, x in S.alts(s, lambda t: unwrap(S, t, kinds, v)):
                    S.holds(x is None, s2, "none-output", "a value appears in the output although the wrapped sink stored none")
            continue
        if not S.holds(v is not None, s, "no-output", "the output is empty although the wrapped sink stored a result"):
            continue
        for s2, x in S.alts(s, lambda t: unwrap(S, t, kinds, v)):
            if S.holds(x is not None, s2, "lost-output", "the output is None although the wrapped sink stored a result"):
                S.holds(same_elem(S, s2, x, el), s2, "output", "the output is not the result of the wrapped sink")


def same_elem(S, st, x, el):
    if same(S.E, st, x, el):
        return True
    if x[0] == "S" and len(x[1]) >= 1:
        return any(same(S.E, st, y, el) for y in x[1])
    return False


def check_C11(rep, tier):
    P = prog()
    mon = WMon(P)
    S = Sim(P, mon, rep, "C11")
    wrappers(S, WRAP)
    handles(S)
    from . import derives, paths

    derives.newtype_sinks(rep, mon, S)
    paths.path_transparent_de(rep)
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of all sequences of sink calls on every wrapper around an opaque deserializable: each call must lead to exactly one call of the same method of the wrapped sink with the same arguments, and its result must be returned; the output must be the wrapped result wherever the wrapped sink stores it.",
        coverage=dict(rule="one forwarded call per call, same arguments, same result; output slot = wrapped result; Option: null answered alone, finish only if something was handed on"),
        assumptions=ASSUME_V,
    )


def wrappers(S, table):
    P = S.P
    for root, kinds in sorted(table.items()):
        if "roots::" + root not in P.byname:
            continue
        kinds = kinds.split()
        S.what = "Deserialize for " + str(P.T[P.T[P.pointee(P.argty(root))]["args"][0]]["p"])
        for script in SCRIPTS:
            if script == "finish" and "opt" not in kinds:
                continue
            for _ in run_script(S, root, kinds, script):
                S.rep.inc("scripts")
        # the state of the wrapper does not change from element to element
        for script, ops in (("map", ["next_key", "next_value"]), ("seq", ["next_value"])):
            for states, slot, k, hp in run_script(S, root, kinds, script):
                for s, act, nul in states:
                    first = None
                    cur = [s]
                    sk0 = None
                    for rnd in range(3):
                        nxt = []
                        for t in cur:
                            for m in ops:
                                lst = [u for u, a, n, go in one_op(S, t, k, slot, hp, m, kinds, "opt" in kinds, True, False) if go]
                                if not lst:
                                    break
                                t = lst[0]
                            nxt.append(t)
                            sk = skeleton(S, t, k, 0)
                            if rnd and sk != sk0:
                                S.E.note_unknown("state of the wrapper changes with every element")
                            sk0 = sk
                        cur = nxt
                    S.rep.inc("inductive steps")
        S.rep.inc("wrappers")
        S.rep.sample("%s: %d call sequences" % (S.what, len(SCRIPTS)))


def handles(S):
    """a sink handle leads to the sink it was made of"""
    P, E = S.P, S.E
    for root, own in (("root_sink_to", False), ("root_sink_box", True)):
        S.what = "SinkHandle::" + root[10:]
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        for s, h in S.call(st, root, [x]):
            hp = ("R", E.alloc(s, h, "h"), (), None)
            for rr in ("root_sink_mut", "root_sink_ref"):
                for s2, d in S.call(s, rr, [hp]):
                    okv = d[0] == "R" and d[3] and d[3][0] == "vt" and "Snk" in P.T[P.VT[d[3][1]][0]]["p"]
                    S.holds(okv, s2, "handle", "the handle leads to another type of sink")
                    if own:
                        for s3, v in S.alts(s2, lambda t: E.load(t, d[1], d[2])):
                            S.holds(same(E, s3, v, x), s3, "handle", "the handle leads to another sink")
                    else:
                        S.holds(d[0] == "R" and d[1] == x[1] and normproj(d[2]) == normproj(x[2]), s2, "handle", "the handle leads to another sink")
    S.what = "SinkHandle"
    st = S.new()
    h = E.mk(P.argty("root_sink_drop"), (N("h"),))
    hp = ("R", E.alloc(st, h, "h"), (), None)
    for rr in ("root_sink_mut", "root_sink_ref"):
        for s, d in S.call(st, rr, [hp]):
            for s2, i in S.alts(s, lambda t: vname(E, P.argty("root_sink_drop"), expand1(E, t, E.load(t, hp[1], hp[2])))):
                if i == "Null":
                    continue
                S.holds(d[0] == "R" and type(d[1]) is tuple and d[1][0] == "om" and prefix_of(h[2], d[1][1]), s2, "handle", "the handle leads to another sink")
