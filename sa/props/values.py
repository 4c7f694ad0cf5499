"""Values, wrappers and collections: C09, C10, C11, C12, C13, C14."""
from .sim import *
from engine import NIL  # noqa: E402

# ------------------------------------------------------------------ serialize side


def atom_of(S, st, v, ty):
    """the atom in a chunk value: (name, payload) or None"""
    E = S.E
    c = expand1(E, st, v)
    if vname(E, ty, c) != "Atom":
        return None
    aty = vfield(E, ty, "Atom")
    a = expand1(E, st, c[2][0])
    n = vname(E, aty, a)
    return n, (a[2][0] if a[2] else None), aty


def cowref(S, st, v):
    """the text or bytes a Cow stands for, as a comparable value"""
    E = S.E
    v = expand1(E, st, v)
    if v[0] == "E":
        x = v[2][0]
    else:
        x = v
    if x[0] == "O" or (x[0] == "S"):
        import models

        b = models.getvecv(E, st, x)
        return ("R", b[1], (), ("len", E.lenof(st, E.content(st, b[1]))))
    if x[0] == "V":
        return ("R", x[1], (), ("len", E.lenof(st, E.content(st, x[1]))))
    return x


PRIMS = {
    "bool": ("Bool", None),
    "unit": ("Null", None),
    "char": ("Char", None),
    "f32": ("F64", "f32"),
    "f64": ("F64", None),
}
for _n in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
    PRIMS[_n] = ("int", None)


def state_arg(S, root, i=1):
    return S.E.mk(S.P.argty(root, i), (N("state"),))


def ser_chunks(S, root, x=None, st=None):
    """serialize() of a value: (state, dyn reference, chunk type, value)"""
    P, E = S.P, S.E
    st = st or S.new()
    if x is None:
        x = E.mk(P.argty(root), (N("x"),))
    for s, d in S.call(st, root, [x]):
        sa = state_arg(S, "root_v_serialize")
        for s2, r in S.call(s, "root_v_serialize", [d, sa], "serialize"):
            yield s2, x, d, r


def check_C09(rep, tier):
    P = prog()
    mon = Mon(P)
    S = Sim(P, mon, rep, "C09")
    E = S.E
    rty = P.ret("root_v_serialize")
    cty = vfield(E, rty, "Ok")
    # ---- primitives become atoms
    for n, (want, conv) in sorted(PRIMS.items()):
        S.what = "Serialize for " + n
        seen = 0
        for s, x, d, r in ser_chunks(S, "root_s_" + n):
            for s2, okk, p in S.result(s, rty, r):
                seen += 1
                if not S.holds(okk, s2, "error", "serializing a %s fails" % n):
                    continue
                src = E.load(s2, x[1], x[2])
                if src[0] == "O":
                    src = E.expand(s2, src)
                for s3, a in S.alts(s2, lambda t: atom_of(S, t, p, cty)):
                    check_number(S, s3, n, src, a, want, conv)
        S.holds(seen, St(), "no-result", "serializing a %s never returns" % n)
    # ---- conversions
    for to in ("ev", "ch"):
        for n in ("u64", "i64", "f64", "usize", "isize", "bool", "char", "unit", "str", "cow", "bytes", "string", "atom"):
            root = "root_c_%s_%s" % (to, n)
            if "roots::" + root not in P.byname:
                continue
            S.what = "conversion of %s to %s" % (n, {"ev": "an event", "ch": "a chunk"}[to])
            st = S.new()
            x = E.mk(P.argty(root), (N("x"),))
            ty = P.ret(root)
            for s, v in S.call(st, root, [x]):
                for s2, a in S.alts(s, lambda t: atom_of(S, t, v, ty)):
                    if n in PRIMS:
                        check_number(S, s2, n, x, a, PRIMS[n][0], None)
                    elif n == "atom":
                        c = expand1(E, s2, v)
                        S.holds(same(E, s2, c[2][0], x), s2, "atom-changed", "the atom is not kept as it is")
                    else:
                        k = "Bytes" if n == "bytes" else "Str"
                        if S.holds(a is not None and a[0] == k, s2, "kind", "does not become %s" % k):
                            for s3, (got, want) in S.alts(s2, lambda t: (cowref(S, t, a[1]), cowref(S, t, x))):
                                S.holds(same(E, s3, got, want), s3, "text-changed", "the text or bytes are not kept")
    # ---- to_static keeps kind and value
    for root in ("root_c_atom_static", "root_c_event_static"):
        S.what = root[7:]
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        ty = P.ret(root)
        for s, v in S.call(st, root, [x]):
            for s2, r in S.alts(s, lambda t: static_same(S, t, x, v, ty)):
                S.holds(r, s2, "static-changed", "to_static changes the value")
    sink_numbers(S)
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the resolved MIR of every primitive Serialize impl, of the conversions into Atom, Chunk and Event, and of every numeric sink, on a symbolic value of the type: the payload must be the same term as the input (integers modulo a width change that is proved lossless), and every integer outside the range of the target must take the out-of-range error branch.",
        coverage=dict(rule="payload term equals input term; each accepted integer equals the event's value on the whole interval of the accepting path; rejected integers are exactly the unrepresentable ones"),
        assumptions=["integer and float casts have the semantics of the Rust reference"],
    )


def static_same(S, st, x, v, ty):
    E = S.E
    src = expand1(E, st, E.load(st, x[1], x[2]))
    dst = expand1(E, st, v)
    if src[0] != "E" or dst[0] != "E" or src[1] != dst[1]:
        return False
    if not src[2]:
        return True
    n = vname(E, ty, dst)
    if n == "Atom":
        a = E.alloc(st, src[2][0], "t")
        return static_same(S, st, ("R", a, (), None), dst[2][0], vfield(E, ty, "Atom"))
    if n in ("Str", "Bytes"):
        a, b = cowref(S, st, src[2][0]), cowref(S, st, dst[2][0])
        return text_same(S, st, a, b)
    return same(E, st, src[2][0], dst[2][0])


def text_same(S, st, a, b):
    import models

    E = S.E
    if same_ref(E, st, a, b):
        return True
    ps = [models.slice_pieces(E, st, x) for x in (a, b)]
    if ps[0] == ps[1]:
        return True
    ids = [models.seq_id(E, st, x) for x in (a, b)]
    return ids[0] is not None and ids[0] == ids[1]


def check_number(S, st, n, src, a, want, conv):
    E = S.E
    if not S.holds(a is not None, st, "not-an-atom", "does not become an atom"):
        return
    kind, val, aty = a
    if want == "int":
        if not S.holds(kind in ("U64", "I64"), st, "kind", "becomes the atom %s" % kind):
            return
        d = sub(val, src)
        S.holds(d == 0, st, "value", "the value of the atom is not the value of the integer on all inputs")
    else:
        if not S.holds(kind == want, st, "kind", "becomes the atom %s, not %s" % (kind, want)):
            return
        if kind == "Null":
            return
        if conv == "f32":
            S.holds(val[0] == "fy" and is_widened(val, src), st, "value", "the float is changed")
        elif kind == "F64":
            S.holds(val == src, st, "value", "the float is changed")
        else:
            S.holds(sub(val, src) == 0, st, "value", "the value is changed")
    S.rep.sample("%s: %s -> %s" % (S.what, show(src), kind))


def show(v):
    return str(v)[:60]


def is_widened(val, src):
    return src in flat(val) or val == src


def flat(v):
    out = [v]
    if type(v) is tuple:
        for e in v:
            out += flat(e)
    return out


# ------------------------------------------------------------------ sinks of plain values
def new_slot(S, st, ty=None):
    return ("R", S.E.alloc(st, ("E", 0, ()), "slot"), (), None)


def open_sink(S, root, st=None):
    """deserialize_into(&mut None): (state, slot, sink pointer, handle pointer)"""
    P, E = S.P, S.E
    st = st or S.new()
    slot = new_slot(S, st)
    for s, h in S.call(st, root, [slot], "deserialize_into"):
        hp = ("R", E.alloc(s, h, "handle"), (), None)
        for s2, k in S.call(s, "root_sink_mut", [hp], "deref of the handle", clear=False):
            yield s2, slot, k, hp


def drop_handle(S, st, hp):
    yield from S.drop(st, hp, S.P.argty("root_sink_drop"), "drop of the sink")


ATOMS = ("Null", "Bool", "Str", "Bytes", "Char", "U64", "I64", "F64")


def atom_values(S, st):
    """one symbolic atom per kind: (kind, value, payload)"""
    E, P = S.E, S.P
    aty = P.argty("root_k_atom", 1)
    for i, v in enumerate(E.T[aty]["v"]):
        n = v[0]
        if n not in ATOMS:
            if all(P.inhabited(f[1]) for f in v[2]):
                yield n, ("E", i, tuple(E.mk(f[1], (N("payload"),)) for f in v[2])), None
            continue
        if v[2]:
            p = E.mk(v[2][0][1], (N("payload"),))
            yield n, ("E", i, (p,)), p
        else:
            yield n, ("E", i, ()), None


def feed_atom(S, root):
    """feeds one atom of each kind: (state, kind, payload, ok, error, slot, sink)"""
    P, E = S.P, S.E
    rty = P.ret("root_k_atom")
    for s, slot, k, hp in open_sink(S, root):
        for kind, av, payload in atom_values(S, s):
            sa = state_arg(S, "root_k_atom", 2)
            pre = [(s, payload)]
            if kind in ("Str", "Bytes"):
                # what the text is, before it is moved
                pre = list(S.alts(s, lambda t: cowref(S, t, payload)))
            for s1, pl in pre:
                S.pre = s1
                for s2, r in S.call(s1, "root_k_atom", [k, av, sa], "atom(%s)" % kind):
                    for s3, okk, p in S.result(s2, rty, r):
                        yield s3, kind, pl, okk, p, slot, k, hp


def slot_value(S, st, slot):
    """None, or the value in the slot"""
    v = S.E.load(st, slot[1], slot[2])
    if v[0] == "O":
        v = expand1(S.E, st, v)
    if v[0] == "E":
        return v[2][0] if v[1] == 1 else None
    raise Unknown("slot")


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")


def sink_numbers(S):
    from engine import INT_RANGE
    from num import Dom, iv_inter

    E = S.E
    for n in INTS:
        S.what = "Deserialize for " + n
        lo, hi = INT_RANGE[n]
        seen = set()
        for s, kind, p, okk, e, slot, k, hp in feed_atom(S, "root_d_" + n):
            v = slot_value(S, s, slot)
            if kind in ("U64", "I64"):
                seen.add((kind, okk))
                a, b = Dom.range(s.dom, p)
                if okk:
                    if S.holds(v is not None, s, "not-filled", "accepts an integer but leaves the slot empty"):
                        S.holds(is_num(v) and sub(v, p) == 0, s, "value", "an accepted integer is changed (range %s..%s)" % (a, b))
                        S.holds(lo <= a and b <= hi, s, "range", "integers outside of the range of the type are accepted (%s..%s)" % (a, b))
                    S.rep.sample("%s: %s %d..%d accepted" % (S.what, kind, a, b))
                else:
                    S.holds(b < lo or a > hi, s, "rejected", "integers which the type can represent are rejected (%s..%s)" % (a, b))
                    kd = S.kind(s, e)
                    S.holds(kd in (None, "OutOfRange"), s, "kind", "an unrepresentable integer is reported as %s" % kd)
                    S.holds(v is None, s, "stored", "a rejected integer is stored")
                    S.rep.sample("%s: %s %d..%d out of range" % (S.what, kind, a, b))
            elif okk:
                # other kinds: there is no rule which makes them equal
                S.holds(False, s, "kind", "an atom of kind %s is accepted as an integer" % kind)
        for kind in ("U64", "I64"):
            S.holds((kind, True) in seen, St(), "never-accepted", "no %s atom is accepted" % kind)
    for n in ("f32", "f64"):
        S.what = "Deserialize for " + n
        for s, kind, p, okk, e, slot, k, hp in feed_atom(S, "root_d_" + n):
            if kind == "F64" and okk:
                v = slot_value(S, s, slot)
                if S.holds(v is not None, s, "not-filled", "accepts a float but leaves the slot empty"):
                    S.holds(v == p if n == "f64" else p in flat(v), s, "value", "the float is changed")
            elif kind in ("U64", "I64") and okk:
                v = slot_value(S, s, slot)
                if S.holds(v is not None, s, "not-filled", "accepts an integer but leaves the slot empty"):
                    S.holds(p in flat(v), s, "value", "the number is changed")


# ------------------------------------------------------------------ C10: transparent serializables
WRAPPERS = {
    "root_s_ref": "a reference",
    "root_s_refmut": "a mutable reference",
    "root_s_box": "Box",
    "root_s_opt": "Option",
    "root_s_newtype": "a derived newtype",
    "root_s_newtypeg": "a derived generic newtype",
    "root_s_newtypeo": "a derived newtype of an Option",
}
HOOKS = ("serialize", "finish", "is_optional", "descriptor")


def inner_calls(log, methods):
    return [e for e in log if e[0] in methods]


def check_C10(rep, tier):
    P = prog()
    mon = Mon(P)
    S = Sim(P, mon, rep, "C10")
    E = S.E
    n = 0
    n += wrapped(S, WRAPPERS)
    # ---- handles
    for root, arg in (("root_ser_handle_to", None), ("root_ser_handle_boxed", None)):
        S.what = "SerializeHandle::" + root[16:]
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        for s, h in S.call(st, root, [x]):
            hp = ("R", E.alloc(s, h, "h"), (), None)
            for s2, d in S.call(s, "root_ser_handle_ref", [hp]):
                for m in HOOKS:
                    transparent(S, s2, d, m, "opq::V<0>", x, False)
    # a handle of whatever origin leads to the very object it was made of
    S.what = "SerializeHandle::deref"
    st = S.new()
    h = E.mk(E.P.argty("root_ser_handle_drop"), (N("h"),))
    hp = ("R", E.alloc(st, h, "h"), (), None)
    for s, d in S.call(st, "root_ser_handle_ref", [hp]):
        S.holds(d[0] == "R" and type(d[1]) is tuple and d[1][0] == "om" and prefix_of(h[2], d[1][1]), s, "deref", "the handle leads to another object")
    from . import derives, paths

    n += derives.newtype_sers(rep)
    paths.path_transparent_ser(rep, mon, S)
    finish_check(rep, [mon], [S])
    rep.inc("wrappers", n)
    return dict(
        explanation="Abstract interpretation of every hook of every wrapper around an opaque user type: each must make exactly one call of the same hook on the wrapped value, with the same state, and return its very result; None must be a null atom without calls.",
        coverage=dict(rule="one forwarded call per hook, same receiver, same state argument, identical result term"),
        assumptions=ASSUME_V,
    )


def wrapped(S, table):
    P, E = S.P, S.E
    n = 0
    for root, name in table.items():
        if "roots::" + root not in P.byname:
            continue
        n += 1
        S.what = "Serialize for " + name
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        for s, d in S.call(st, root, [x]):
            for m in HOOKS:
                transparent(S, s, d, m, "opq::V<0>", x, root in ("root_s_opt", "root_s_newtypeo"))
    return n


ASSUME_V = ["std/alloc/core behave as modelled in sa/models.py", "user types are opaque: their methods may return anything"]


def opt_tag(E, s, v):
    """which variant of the option (or of the option in the newtype) is known here?"""
    if v[0] == "O" and not E.T[v[1]]["p"].startswith(("core::option", "std::option")):
        v = E.expand(s, v)
    if v[0] == "S":
        v = v[1][0]
    return v[1] if v[0] == "E" else s.exp.get(v[2])


def transparent(S, st, d, m, ty, x, opt):
    P, E = S.P, S.E
    root = "root_v_" + m
    args = [d]
    if m in ("serialize", "finish"):
        args.append(state_arg(S, root))
    rty = P.ret(root)
    some = False
    for s, r in S.call(st, root, args, m):
        calls = inner_calls(s.ghost.log, HOOKS)
        isnone = False
        if opt:
            v = E.load(s, x[1], x[2])
            tag = opt_tag(E, s, v)
            if tag is None:
                if m == "descriptor":
                    some = True
                    continue
                S.holds(False, s, m + ":same", "%s does not depend on whether there is a value" % m)
                continue
            isnone = tag == 0
            if m == "descriptor":
                some = True
                continue
        if isnone:
            S.holds(not calls, s, m + ":none", "user code is called for None")
            if m == "serialize":
                for s2, okk, p in S.result(s, rty, r):
                    if S.holds(okk, s2, m + ":none", "serializing None fails"):
                        for s3, a in S.alts(s2, lambda t: atom_of(S, t, p, vfield(E, rty, "Ok"))):
                            S.holds(a is not None and a[0] == "Null", s3, m + ":none", "None does not become null")
            elif m == "finish":
                for s2, okk, p in S.result(s, rty, r):
                    S.holds(okk, s2, m + ":none", "finishing None fails")
            elif m == "is_optional":
                S.holds(r == 1, s, m + ":none", "None is not optional")
            continue
        some = True
        if opt and m == "is_optional":
            S.holds(r == 0, s, m + ":some", "Some is reported as optional")
            continue
        if not S.holds(len(calls) == 1 and calls[0][0] == m, s, m + ":calls", "%s of the wrapper makes the calls %s on the wrapped value" % (m, [c[0] for c in calls])):
            continue
        c = calls[0]
        recv = c[1][0]
        v = E.load(s, recv[1], recv[2])
        S.holds(v[0] == "O" and E.T[v[1]]["p"] == ty, s, m + ":receiver", "another value receives the call")
        if len(args) > 1:
            S.holds(same(E, s, c[1][1], args[1]), s, m + ":state", "the state is not handed on")
        S.holds(same(E, s, r, c[2]), s, m + ":result", "%s of the wrapper returns something else than the wrapped value did" % m)
        S.rep.sample("%s: %s -> %s of the wrapped value" % (S.what, m, m))
    S.holds(some, St(), m + ":never", "%s never returns" % m)


# ------------------------------------------------------------------ C14: serialized collections
TUPLES = {"root_s_t%d" % i: i for i in range(1, 13)}
ARRAYS = {"root_s_a%d" % i: i for i in range(0, 4)}
SEQS = ["root_s_vec", "root_s_slice", "root_s_bset", "root_s_hset", "root_s_vecu16", "root_s_veci8", "root_s_vecbool", "root_s_vecunit", "root_s_vecchar", "root_s_vecopt", "root_s_vecvecu8", "root_s_vecboxu8", "root_s_vecrefu8"]
MAPS_S = ["root_s_bmap", "root_s_hmap"]
BYTES = ["root_s_vecu8", "root_s_sliceu8", "root_s_a3u8"]
KCON = 3  # elements which are read one by one before the general step


def check_C14(rep, tier):
    P = prog()
    mon = Mon(P)
    S = Sim(P, mon, rep, "C14")
    E = S.E
    rty = P.ret("root_v_serialize")
    cty = vfield(E, rty, "Ok")
    for root in SEQS + MAPS_S + BYTES + list(TUPLES) + list(ARRAYS):
        S.what = "Serialize for " + P.T[P.pointee(P.argty(root))]["p"]
        seen = 0
        for s, x, d, r in ser_chunks(S, root):
            for s2, okk, p in S.result(s, rty, r):
                if not S.holds(okk, s2, "error", "serializing the collection fails"):
                    continue
                for s3, c in S.alts(s2, lambda t: expand1(E, t, p)):
                    seen += 1
                    kind = vname(E, cty, c)
                    if root in BYTES:
                        bytes_chunk(S, s3, root, x, p, cty, kind)
                    elif root in MAPS_S:
                        if S.holds(kind == "Map", s3, "kind", "is serialized as %s instead of a map" % kind):
                            emitter(S, s3, root, x, c[2][0], True)
                    elif S.holds(kind == "Seq", s3, "kind", "is serialized as %s instead of a sequence" % kind):
                        emitter(S, s3, root, x, c[2][0], False)
        S.holds(seen, St(), "never", "serialize never returns")
        rep.inc("collections")
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the emitters of every collection: the first elements are drawn one by one, then the emitter state is generalised to a symbolic position, and one more step from it must yield the element of that position and lead to the state of the next position (induction over the position), and the end exactly at the length.",
        coverage=dict(rule="n-th call yields the handle of the n-th element (and of its value, for maps), the end is reported exactly at the length; bytes become one atom"),
        assumptions=ASSUME_V + ["iterators of std maps and sets yield every entry once"],
    )


def bytes_chunk(S, st, root, x, p, cty, kind):
    E = S.E
    if not S.holds(kind == "Atom", st, "kind", "bytes are serialized as %s" % kind):
        return
    for s, a in S.alts(st, lambda t: atom_of(S, t, p, cty)):
        if S.holds(a[0] == "Bytes", s, "kind", "bytes become the atom %s" % a[0]):
            for s2, (got, want) in S.alts(s, lambda t: (cowref(S, t, a[1]), container(S, t, root, x))):
                S.holds(same_slice(S, s2, got, want), s2, "bytes", "the atom does not hold the bytes of the value")


def container(S, st, root, x):
    """the elements of a collection as a slice reference"""
    import models

    E = S.E
    t = S.P.T[S.P.rep(S.P.pointee(S.P.argty(root)))]
    v = E.load(st, x[1], x[2])
    if t["k"] == "ref":
        if v[0] == "O":
            v = expand1(E, st, v)
        return v
    if t["k"] == "array":
        return ("R", x[1], x[2], ("len", t["len"]))
    if t["k"] == "tuple":
        return ("R", x[1], x[2], ("len", len(t["f"])))
    if v[0] == "O":
        v = E.expand(st, v)
    if v[0] in ("V", "M"):
        return ("R", v[1], (), ("len", E.lenof(st, E.content(st, v[1]))))
    raise Unknown("container")


def same_slice(S, st, a, b):
    if a[0] != "R" or b[0] != "R":
        return False
    return a[1] == b[1] and normproj(a[2]) == normproj(b[2]) and a[3] and b[3] and a[3][0] == "len" and sub(a[3][1], b[3][1]) == 0


def emitter(S, st, root, x, em, ismap):
    """draws the elements of an emitter"""
    P, E = S.P, S.E
    base = container(S, st, root, x)
    n = base[3][1]
    em = em if em[0] == "R" else E.expand(st, em)
    states = [(st, 0)]
    k = 0
    history = []
    while k <= KCON + 1:
        nxt = []
        for s, _ in states:
            for s2, more in draw(S, s, root, base, n, em, ismap, k):
                if more:
                    nxt.append((s2, k + 1))
        history.append([s for s, _ in states])
        states = nxt
        if not states:
            return
        k += 1
    if type(n) is int:
        # arrays and tuples end by themselves
        while states:
            nxt = []
            for s, _ in states:
                for s2, more in draw(S, s, root, base, n, em, ismap, k):
                    if more:
                        nxt.append((s2, k + 1))
            states = nxt
            k += 1
            if k > 40:
                S.violation("endless", "the emitter does not end", None)
                return
        return
    # ---- general step
    I = ("pos", S.what)
    from num import ATOMTY

    ATOMTY[I] = (0, (1 << 59) - 1)
    i = ("y", ((I, 1),), 0)
    a, b = history[-2], history[-1]
    if len(a) != 1 or len(b) != 1:
        S.E.note_unknown("emitter state is not unique")
        return
    g = generalise(S, a[0], b[0], em, k - 2, i)
    if g is None:
        S.E.note_unknown("emitter state does not advance uniformly")
        return
    s = g
    s.dom = dict(s.dom)
    from num import Dom

    for r in ([("dom", i, ((0, INF_),))], [("dom", sub(n, i), ((0, INF_),))]):
        if not s.refine(r):
            raise Unknown("general position")
    steps = 0
    for s2, more in draw(S, s, root, base, n, em, ismap, i):
        steps += 1
        if more:
            want = shift(S, g, em, i)
            got = snap(S, s2, em)
            ok_ = S.holds(got == want, s2, "advance", "the emitter does not advance to the next element from an arbitrary position", where="")
    S.holds(steps >= 2, St(), "step", "the general step is not covered")
    S.rep.inc("inductive steps")
    S.rep.sample("%s: element I of n from position I, then position I+1" % S.what)


INF_ = 1 << 200


def draw(S, st, root, base, n, em, ismap, i):
    """one step of the emitter at position i: (state, another element?)"""
    P, E = S.P, S.E
    for s, v, rty in step(S, st, em, "root_me_next_key" if ismap else "root_qe_next"):
        oty = vfield(E, rty, "Ok")
        for s2, okk, p in S.result(s, rty, v):
            if not S.holds(okk, s2, "error", "the emitter fails at element %s" % pos(i)):
                continue
            for s3, o in S.alts(s2, lambda t: expand1(E, t, p)):
                from num import Dom

                lo, hi = Dom.range(s3.dom, sub(n, i)) if type(n) is not int or type(i) is not int else (n - i, n - i)
                if lo > hi:
                    continue
                if o[1] == 0:
                    S.holds(hi <= 0, s3, "early-end", "the emitter ends although there are more elements (element %s)" % pos(i))
                    yield s3, False
                    continue
                if not S.holds(lo >= 1, s3, "late-end", "the emitter yields more elements than the collection has (element %s)" % pos(i)):
                    continue
                ok_ = check_handle(S, s3, root, base, o[2][0], i, 0 if ismap else None)
                if not ismap:
                    if ok_:
                        yield s3, True
                    continue
                for s4, v4, rty4 in step(S, s3, em, "root_me_next_value"):
                    for s5, okk5, p5 in S.result(s4, rty4, v4):
                        if not S.holds(okk5, s5, "value-error", "the emitter fails at the value of element %s" % pos(i)):
                            continue
                        if check_handle(S, s5, root, base, p5, i, 1):
                            yield s5, True


def pos(i):
    return str(i) if type(i) is int else "I"


def step(S, st, em, root):
    for s, v in S.call(st, root, [em, state_arg(S, root)], root[8:]):
        yield s, v, S.P.ret(root)


def check_handle(S, st, root, base, h, i, kv):
    """does the handle lead to element i?"""
    P, E = S.P, S.E
    hp = ("R", E.alloc(st, h, "h"), (), None)
    good = True
    for s, d in S.call(st, "root_ser_handle_ref", [hp]):
        t = P.T[P.rep(P.pointee(P.argty(root)))]
        ix = i if type(i) is int else ("ix", i)
        if t["k"] == "ref":
            t = P.T[P.rep(t["e"])]
        if t["k"] == "tuple":
            ety = t["f"][i] if i < len(t["f"]) else None
            ix = (i,)
        elif t["k"] in ("array", "slice"):
            ety = t["e"]
            ix = (ix,)
        else:
            ety = t["args"][kv or 0]
            ix = (ix, kv or 0) if base_is_map(S, s, base) else (ix,)
        zst = P.T[P.rep(ety)].get("sz") == 0 if ety is not None else False
        want = ("R", base[1], tuple(base[2]) + ix, None)
        got = d
        okp = got[0] == "R" and (zst or (got[1] == want[1] and normproj(got[2]) == normproj(want[2])))
        good &= S.holds(okp, s, "element", "call %s yields something else than element %s" % (pos(i), pos(i)))
        okv = got[0] == "R" and got[3] and got[3][0] == "vt" and ety is not None and P.VT[got[3][1]][0] == ety
        good &= S.holds(okv, s, "element-type", "the element is not serialized as its own type")
    return good


def base_is_map(S, st, base):
    c = S.E.content(st, base[1])
    return c[0] == "OA" and type(c[1]) is tuple


def snap(S, st, em):
    """what an emitter looks like"""
    E = S.E
    names, allocs = reachable(E, st, [em])
    return tuple((a, st.heap[a]) for a in sorted((a for a in allocs if a in st.heap and isinstance(a, N)), key=lambda a: a.n))


def generalise(S, a, b, em, k, i):
    """state b is state a one element later: the state at an arbitrary position"""
    sa, sb = snap(S, a, em), snap(S, b, em)
    if [x[0] for x in sa] != [x[0] for x in sb]:
        return None
    out = []
    for (al, va), (_, vb) in zip(sa, sb):
        g = gen(va, vb, k, i)
        if g is None:
            return None
        out.append((al, g))
    s = a.copy()
    for al, v in out:
        s.heap[al] = v
    drop_facts(s, a)
    S.genk = k
    return s


def drop_facts(s, a):
    """facts about lengths which stem from the first steps do not hold at an arbitrary position"""
    s.dom = {}


def gen(a, b, k, i):
    if is_num(a) and is_num(b):
        d = sub(b, a)
        if d == 0:
            return a
        if d == 1:
            return add(sub(a, k), i)
        if d == -1:
            return sub(add(a, k), i)
        return None
    if a == b:
        return a
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        # a position in a projection
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
                continue
            g = gen(x, y, k, i)
            if g is None:
                return None
            out.append(g)
        t = tuple(out)
        if len(t) == 4 and t[0] == "R":
            t = ("R", t[1], tuple(fixp(p) for p in t[2]), t[3])
        return t
    return None


def fixp(p):
    """a symbolic position within a projection"""
    if type(p) is tuple and p and p[0] == "y":
        return ("ix", p)
    if type(p) is tuple and p and p[0] == "ix" and type(p[1]) is int:
        return p[1]
    return p


def shift(S, g, em, i):
    """the generalised state at the next position"""
    from num import lin

    def sh(v):
        if type(v) is tuple and v and v[0] == "y" and len(v) == 3:
            d = dict(v[1])
            (at, _), = i[1]
            if at in d:
                return add(v, d[at])
            return v
        if type(v) is tuple:
            return tuple(sh(e) for e in v)
        return v

    return tuple((al, sh(v)) for al, v in snap(S, g, em))


# ------------------------------------------------------------------ C13: sinks of plain values
ACCEPTS = {
    "bool": ("Bool",),
    "unit": ("Null",),
    "string": ("Str",),
    "char": ("Char", "Str"),
    "f32": ("U64", "I64", "F64"),
    "f64": ("U64", "I64", "F64"),
    "vecu8": ("Bytes",),
    "a3u8": ("Bytes",),
    "a0u8": ("Bytes",),
}
for _n in INTS:
    ACCEPTS[_n] = ("U64", "I64")
for _n in ("vec", "bmap", "hmap", "bset", "hset", "t1", "t2", "t3", "t12", "a0", "a1", "a2", "a3", "vecu16", "veci8", "vecbool", "a2u16", "a2bool", "a2i8", "vecunit", "vecchar"):
    ACCEPTS[_n] = ()
LENGTHS = {"a3u8": 3, "a0u8": 0}


def check_C13(rep, tier):
    P = prog()
    mon = Mon(P)
    S = Sim(P, mon, rep, "C13")
    E = S.E
    for n, acc in sorted(ACCEPTS.items()):
        root = "root_d_" + n
        S.what = "Deserialize for " + str(P.T[P.T[P.pointee(P.argty(root))]["args"][0]]["p"])
        seen = set()
        for s, kind, p, okk, e, slot, k, hp in feed_atom(S, root):
            seen.add((kind, okk))
            for s2, v in S.alts(s, lambda t: slot_value(S, t, slot)):
                if okk:
                    if not S.holds(kind in acc, s2, "accepts", "an atom of kind %s is accepted" % kind):
                        continue
                    if not S.holds(v is not None, s2, "not-filled", "reports success for a %s atom but leaves the slot empty" % kind):
                        continue
                    right_value(S, s2, n, kind, p, v)
                    S.rep.sample("%s: %s accepted" % (S.what, kind))
                else:
                    S.holds(v is None, s2, "stored", "a refused %s atom changes the slot" % kind)
                    kd = S.kind(s2, e)
                    if kind not in acc:
                        S.holds(kd in (None, "Unexpected"), s2, "error-kind", "a %s atom is refused with the error %s" % (kind, kd))
                    else:
                        refused(S, s2, n, kind, p, kd)
        for kind in acc:
            S.holds((kind, True) in seen, St(), "never", "%s atoms are never accepted" % kind)
        for kind in ATOMS:
            S.holds(any((kind, b) in seen for b in (True, False)), St(), "no-answer", "%s atoms have no outcome" % kind)
        rep.inc("types")
    ignoring(S)
    from . import derives

    derives.enum_sinks(rep, mon, S)
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the atom() method of every built-in sink on a symbolic atom of every kind: on every path which returns Ok the slot holds the payload of that atom, on every other path the slot is unchanged and the error kind is Unexpected (out of range and length errors only for accepted kinds).",
        coverage=dict(rule="table of accepted kinds per type; payload term in the slot; slot untouched and error kind Unexpected otherwise"),
        assumptions=ASSUME_V,
    )


def right_value(S, st, n, kind, p, v):
    E = S.E
    if n in INTS:
        S.holds(is_num(v) and sub(v, p) == 0, st, "value", "the slot holds another value than the atom")
    elif n in ("f32", "f64"):
        S.holds(p in flat(v), st, "value", "the slot holds another value than the atom")
    elif kind in ("Bool", "Char"):
        S.holds(is_num(v) and sub(v, p) == 0, st, "value", "the slot holds another value than the atom")
    elif kind == "Null":
        S.holds(v == ("S", ()), st, "value", "the slot holds another value than the atom")
    elif kind in ("Str", "Bytes") and n in ("string", "vecu8"):
        for s, (a, b) in S.alts(st, lambda t: (cowref(S, t, p), cowref(S, t, v))):
            for s2, r in S.alts(s, lambda t: text_same(S, t, a, b)):
                S.holds(r, s2, "value", "the slot holds another text than the atom")
    elif n in LENGTHS:
        for s, r in S.alts(st, lambda t: array_of(S, t, p, v, LENGTHS[n])):
            S.holds(r, s, "value", "the array does not hold the bytes of the atom")
    elif n == "char":
        for s, r in S.alts(st, lambda t: only_char(S, t, p, v)):
            S.holds(r, s, "value", "the char is not the only one of the text")
    else:
        raise Unknown("value of " + n)


def array_of(S, st, cow, v, n):
    E = S.E
    r = cowref(S, st, cow)
    ln = r[3][1]
    from num import Dom

    lo, hi = Dom.range(st.dom, ln) if type(ln) is not int else (ln, ln)
    if (lo, hi) != (n, n):
        return False
    if n == 0:
        return True
    a = E.alloc(st, v, "t")
    for i in range(n):
        x = E.load(st, a, (i,))
        y = E.load(S.pre, r[1], tuple(q for q in r[2] if not (type(q) is tuple and q[0] == "@")) + (i,))
        if not (is_num(x) and is_num(y) and sub(x, y) == 0):
            return False
    return True


def only_char(S, st, cow, v):
    """the text of the cow is exactly the char v"""
    r = cowref(S, st, cow)
    if not (type(v) is tuple and v[0] == "y" and len(v[1]) == 1 and v[2] == 0 and v[1][0][1] == 1):
        return False
    at = v[1][0][0]
    if at[:2] != ("fn", "chr") or at[2][0] != r[1]:
        return False
    o, w = at[3], at[4]
    return no_other(st, r[3][1], w) and no_other(st, o, 0)


def no_other(st, v, n):
    """v is n on this path"""
    from num import Dom

    if type(v) is int:
        return v == n
    return Dom.range(st.dom, v) == (n, n)


def single_char(st, r):
    """may the text be a single char on this path?"""
    ln = r[3][1]
    for k, w in st.exp.items():
        if k[0] == "chw" and k[1] == r[1]:
            return may_be(st, ln, w)
    return not no_other(st, ln, 0)


def refused(S, st, n, kind, p, kd):
    """a refused atom of an accepted kind"""
    E = S.E
    if n in INTS:
        S.holds(kd in (None, "OutOfRange"), st, "error-kind", "an unrepresentable integer is reported as %s" % kd)
    elif n in LENGTHS:
        S.holds(kd in (None, "WrongLength"), st, "error-kind", "bytes of the wrong length are reported as %s" % kd)
        S.holds(not may_be(st, p[3][1], LENGTHS[n]), st, "refused", "bytes of the right length are refused")
    elif n == "char" and kind == "Str":
        S.holds(kd in (None, "Unexpected"), st, "error-kind", "a text which is not a char is reported as %s" % kd)
        S.holds(not single_char(st, p), st, "refused", "a text of a single char may be refused")
    else:
        S.holds(False, st, "refused", "%s atoms are refused" % kind)


def may_be(st, v, n):
    from num import Dom, iv_has

    if type(v) is int:
        return v == n
    return iv_has(Dom.set_of(st.dom, v), n)


def ignoring(S):
    """the sink which ignores values"""
    P, E = S.P, S.E
    S.what = "the ignoring sink"
    st = S.new()
    hty = P.ret("root_sink_null")
    for s, h in S.call(st, "root_sink_null", []):
        hp = ("R", E.alloc(s, h, "h"), (), None)
        for s1, k in S.call(s, "root_sink_mut", [hp]):
            for m in ("atom", "map", "seq", "next_key", "next_value", "finish"):
                root = "root_k_" + m
                rty = P.ret(root)
                avs = [(None, None, None)] if m != "atom" else list(atom_values(S, s1))
                for kind, av, _ in avs:
                    args = [k] + ([av] if av is not None else []) + [state_arg(S, root, 2 if m == "atom" else 1)]
                    for s2, r in S.call(s1, root, args):
                        for s3, okk, p in S.result(s2, rty, r):
                            if not S.holds(okk, s3, "refused", "%s is refused" % (kind or m)):
                                continue
                            if m in ("next_key", "next_value"):
                                for s4, x in S.alts(s3, lambda t: expand1(E, t, p)):
                                    S.holds(vname(E, hty, x) == "Null", s4, "nested", "%s leads to a sink which does not ignore" % m)
