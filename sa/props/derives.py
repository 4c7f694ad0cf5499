"""Derived implementations: C18, C21, C22, C23 and the derived parts of C10, C11, C13."""
import dspec

from .sim import *
from .values import *
from .colls import skeleton

UNKNOWN_KEY = "no such key"
HOOK = ("serialize", "finish", "next", "next_key", "next_value")


def dprog():
    return prog("derive")


def text(E, st, s):
    """a concrete &str"""
    b = s.encode()
    return ("R", E.alloc(st, ("A", tuple(b)), "text"), (), ("len", len(b)))


def piece_text(x):
    return None if x[0] != "c" else bytes(x[1]).decode("utf8", "replace")


def sid(S, st, v):
    """identification of a text (Cow, String, &str)"""
    import models

    return models.seq_id(S.E, st, cowref(S, st, v) if v[0] != "R" else v)


# ------------------------------------------------------------------ serializing
class SMon(Mon):
    """predicates and is_optional of user types are functions: the same answer for the same value"""

    em = None
    sim = None

    def fact(self, E, st, what, recv):
        k = (what, recv[1], normproj(recv[2]))
        g = st.ghost.mode or ()
        for kk, v in g:
            if kk == k:
                return v
        v = choose(st, 2)
        st.ghost = st.ghost._replace(mode=(st.ghost.mode or ()) + ((k, v),))
        return v

    def o_pred(self, E, st, call):
        return self.fact(E, st, "pred", call.args[0])

    def o_is_optional(self, E, st, call):
        return self.fact(E, st, "opt", call.args[0])

    def v_Serialize(self, E, st, call, m):
        if m == "is_optional":
            return self.fact(E, st, "opt", call.recv)
        r = E.fresh(st, call.destty, m)
        self.log(st, m, (call.recv,) + tuple(call.args[1:]), r)
        return r


    def v_StructEmitter(self, E, st, call, m):
        """the loop over optional nested fields ends when it has come back to the same state"""
        g = st.ghost
        n = sum(1 for e in g.log if e[0] == "next")
        if n >= 3 and self.em is not None:
            sn = snap(self.sim, st, self.em)
            prev = [e[1][1] for e in g.log if e[0] == "at"]
            if sn == prev[-1]:
                raise Stop
        if self.em is not None:
            st.ghost = st.ghost._replace(log=st.ghost.log + (("at", (None, snap(self.sim, st, self.em)), 0),))
        r = E.fresh(st, call.destty, m)
        self.log(st, m, (call.recv,) + tuple(call.args[1:]), r)
        return r


def fget(st, what, ptr):
    k = (what, ptr[1], normproj(ptr[2]))
    for kk, v in st.ghost.mode or ():
        if kk == k:
            return v
    return None


class Emit:
    """the sequence of next() calls on the emitter of a derived struct, against the specification"""

    def __init__(self, S, d, x, data):
        self.S = S
        self.d = d
        self.data = data  # pointer to the value
        self.P = S.P
        self.E = S.E
        ty = S.P.pointee(S.P.argty("root_s_" + dspec.root(d.name)))
        self.leaves = []  # (path, field, name on the wire, type, conditions to omit it)
        self.flat(d, ty, (), (), False)
        self.steps = 0

    def flat(self, d, ty, path, conds, opt):
        """flattened structs whose declaration is known are looked at field by field"""
        opt = opt or d.skip_opt
        for i, f in enumerate(d.fields):
            p = path + (i,)
            fty = self.P.T[ty]["v"][0][2][i][1]
            c = conds + ((("pred", p),) if f.skip_if else ())
            if f.flatten and f.flatten != "opaque":
                self.flat(dspec.BYNAME[f.flatten], fty, p, c, opt)
                continue
            if opt and not f.flatten:
                c += (("opt", p),)
            self.leaves.append((p, f, d.wire(f), fty, c, opt))

    def ptr(self, p):
        return ("R", self.data[1], tuple(self.data[2]) + p, None)

    def facts(self, st, i):
        """(is skipped, reason) of leaf i: True, False or None if it has not been asked"""
        unknown = None
        for what, p in self.leaves[i][4]:
            v = fget(st, "pred", self.ptr(p)) if what == "pred" else self.optional(st, i)
            name = "skip_serializing_if" if what == "pred" else "skip_serializing_optionals"
            if v == 1:
                return True, name
            if v is None:
                unknown = name
        return (None, unknown) if unknown else (False, "")

    def optional(self, st, i):
        path, f = self.leaves[i][:2]
        if f.ty == "()":
            return 1
        if f.ty in ("bool",):
            return 0
        p = self.ptr(path)
        if f.opt:
            v = self.E.load(st, p[1], p[2])
            tag = v[1] if v[0] == "E" else st.exp.get(v[2])
            return None if tag is None else int(tag == 0)
        return fget(st, "opt", p)

    def skipped(self, st, a, b):
        """fields a..b-1 must all be skipped"""
        okv = True
        for j in range(a, b):
            k, why = self.facts(st, j)
            n = self.leaves[j][1].ident
            okv &= self.S.holds(k is True, st, "omitted", "the field %s is omitted although %s" % (n, "nothing asks for it" if k is False else "%s was not asked" % why))
        return okv

    def emitted(self, st, j):
        k, why = self.facts(st, j)
        n = self.leaves[j][1].ident
        return self.S.holds(k is False, st, "not-omitted", "the field %s is emitted although %s" % (n, "%s asks to omit it" % why if k else "%s was not asked" % why))

    def run(self, st, em):
        """all states of the emitter"""
        work = [(st, 0, None)]
        seen = set()
        self.S.mon.em, self.S.mon.sim = em, self.S
        while work:
            s, i, inside = work.pop()
            key = (i, inside is not None, snap(self.S, s, em), tuple(self.facts(s, j) for j in range(i, len(self.leaves))))
            if key in seen:
                continue
            seen.add(key)
            self.steps += 1
            if self.steps > 5000:
                self.E.note_unknown("too many emitter states")
                return
            self.S.rep.inc("emitter states")
            root = "root_se_next"
            for s2, r in self.S.call(s, root, [em, state_arg(self.S, root)], "next"):
                for s3, nx in self.judge(s2, r, i, inside):
                    if nx is not None:
                        work.append((s3,) + nx)

    def field_of(self, ptr):
        """the leaf a pointer points to"""
        if ptr[0] != "R" or ptr[1] != self.data[1]:
            return None
        p = normproj(ptr[2])
        base = normproj(self.data[2])
        if p[: len(base)] != base:
            return None
        p = p[len(base) :]
        for j, l in enumerate(self.leaves):
            if l[0] == p:
                return j
        return None

    def judge(self, st, r, i, inside):
        """(state, next (i, inside) or None at the end) for every case of a next() call"""
        S, E, P = self.S, self.E, self.P
        rty = P.ret("root_se_next")
        log = [e for e in st.ghost.log if e[0] in HOOK]

        def scan(s):
            """what the call did: expands the results of user code"""
            out = []
            for m, args, res in log:
                rx = res
                x = expand1(E, s, rx)
                if x[1] == 1:
                    out.append((m, args, "err", x[2][0], res))
                    continue
                v = x[2][0]
                if m == "serialize":
                    c = expand1(E, s, v)
                    out.append((m, args, "chunk", c, res))
                elif m == "next":
                    o = expand1(E, s, v)
                    out.append((m, args, "some" if o[1] else "none", o[2][0] if o[1] else None, res))
                else:
                    out.append((m, args, "ok", v, res))
            return out, expand1(E, s, r)

        for s, (evs, rx) in S.alts(st, scan):
            yield from self.judge1(s, evs, rx, i, inside, rty)

    def judge1(self, s, evs, rx, i, inside, rty):
        S, E, P, d = self.S, self.E, self.P, self.d
        L = self.leaves
        n = len(L)
        iserr = vname(E, rty, rx) == "Err"
        fin = False  # the flattened field is exhausted, its finish hook is due
        due = None  # a nested field which must be returned
        for k, (m, args, kind, v, res) in enumerate(evs):
            last = k + 1 == len(evs)
            if due is not None:
                S.holds(False, s, "lost-field", "a field of the flattened %s is not emitted" % L[i][1].ident)
                return
            if m == "serialize":
                j = self.field_of(args[0])
                if not S.holds(j is not None and L[j][1].flatten and inside is None and not fin, s, "flatten", "serialize() is called on something else than a flattened field which is due"):
                    return
                if not S.holds(j >= i, s, "order", "the flattened field %s is serialized again" % L[j][1].ident):
                    return
                if not self.skipped(s, i, j) or not self.emitted(s, j):
                    return
                i = j
                if kind == "err":
                    S.holds(iserr and last, s, "flatten-error", "the error of the flattened field is not returned")
                    return
                cty = vfield(E, P.ret("root_v_serialize"), "Ok")
                if vname(E, cty, v) != "Struct":
                    if S.holds(iserr and last, s, "flatten-kind", "flattening a %s is not an error" % vname(E, cty, v)):
                        kd = S.kind(s, rx[2][0])
                        S.holds(kd in (None, "Unexpected"), s, "flatten-kind", "flattening a %s is reported as %s" % (vname(E, cty, v), kd))
                    return
                inside = v[2][0]
            elif m == "next":
                if not S.holds(inside is not None and not fin, s, "flatten", "the fields of a flattened struct are requested when none is due"):
                    return
                if kind == "err":
                    S.holds(iserr and last, s, "flatten-error", "the error of the flattened struct is not returned")
                    return
                if kind == "none":
                    fin = True
                    continue
                if L[i][5]:
                    o = self.handle_optional(s, res)
                    if o == 1:
                        continue
                    if not S.holds(o == 0, s, "not-omitted", "a field of the flattened %s is emitted without asking whether it is optional" % L[i][1].ident):
                        return
                due = v
            elif m == "finish":
                j = self.field_of(args[0])
                if not S.holds(fin and j == i, s, "flatten-finish", "finish() is called on something else than the flattened struct which just ended"):
                    return
                if kind == "err":
                    S.holds(iserr and last, s, "flatten-error", "the error of finish() is not returned")
                    return
                fin = False
                inside = None
                i += 1
            else:
                S.holds(False, s, "calls", "%s is called" % m)
                return
        if iserr:
            S.holds(False, s, "error", "the emitter fails although no user code did")
            return
        o = expand1(E, s, rx[2][0])
        if due is not None:
            if not S.holds(o[1] == 1, s, "lost-field", "a field of the flattened %s is not emitted" % L[i][1].ident):
                return
            a, b = due, o[2][0]
            a = a if a[0] == "S" else E.expand(s, a)
            b = b if b[0] == "S" else E.expand(s, b)
            for q, what in ((0, "name"), (1, "value")):
                S.holds(same(E, s, a[1][q], b[1][q]), s, "flatten-" + what, "a field of the flattened %s is emitted with another %s" % (L[i][1].ident, what))
            yield s, (i, inside)
            return
        if not S.holds(not fin, s, "flatten-finish", "the flattened struct %s is not finished" % (L[i][1].ident if i < n else "?")):
            return
        if not S.holds(inside is None, s, "flatten-early", "the emitter goes on although the flattened %s has not ended" % (L[i][1].ident if i < n else "?")):
            return
        if o[1] == 0:
            if self.skipped(s, i, n):
                S.rep.inc("complete emissions")
            yield s, None
            return
        pair = o[2][0]
        pair = pair if pair[0] == "S" else E.expand(s, pair)
        name = sid(S, s, pair[1][0])
        hp = ("R", E.alloc(s, pair[1][1], "h"), (), None)
        for s2, dd in S.call(s, "root_ser_handle_ref", [hp], clear=False):
            j = self.field_of(dd) if dd[0] == "R" else None
            if dd[0] == "R" and dd[3] and dd[3][0] == "vt":
                # zero sized fields may be anywhere
                js = [q for q in range(n) if L[q][3] == P.VT[dd[3][1]][0]]
                if j is None and len(js) == 1:
                    j = js[0]
            if not S.holds(j is not None, s2, "value", "what is emitted is not a field"):
                continue
            f = L[j][1]
            if not S.holds(j >= i, s2, "order", "the field %s is emitted out of order or twice" % f.ident):
                continue
            if not S.holds(dd[3] and dd[3][0] == "vt" and P.VT[dd[3][1]][0] == L[j][3], s2, "value", "the field %s is not serialized as itself" % f.ident):
                continue
            if not S.holds(not f.flatten, s2, "flatten", "the flattened field %s is emitted as a field of its own" % f.ident):
                continue
            want = L[j][2]
            S.holds(name == ("c", tuple(want.encode())), s2, "name", "the field %s is emitted as %r instead of %r" % (f.ident, piece_text(name), want))
            if self.skipped(s2, i, j) and self.emitted(s2, j):
                yield s2, (j + 1, None)

    def handle_optional(self, s, res):
        """what the value which this call of the nested emitter returned says about being optional"""
        got = set()
        for (what, a, _), v in s.ghost.mode or ():
            if what == "opt" and type(a) is tuple and a[0] == "om" and prefix_of(res[2], a[1]):
                got.add(v)
        return got.pop() if len(got) == 1 else None


def serialize_structs(S, specs, prop):
    """runs the emitter of every struct against its specification"""
    P, E, rep = S.P, S.E, S.rep
    for d in specs:
        root = "root_s_" + dspec.root(d.name)
        S.what = "Serialize for the derived %s" % d.name
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        some = False
        for s, dd in S.call(st, root, [x]):
            # its type name
            for s2, de in S.call(s, "root_v_descriptor", [dd], "descriptor"):
                type_name(S, s2, de, d)
            for s2, r in S.call(s, "root_v_is_optional", [dd], "is_optional"):
                S.holds(r == 0, s2, "optional", "a struct is optional")
            sa = state_arg(S, "root_v_serialize")
            rty = P.ret("root_v_serialize")
            for s2, r in S.call(s, "root_v_serialize", [dd, sa], "serialize"):
                for s3, okk, p in S.result(s2, rty, r):
                    if not S.holds(okk, s3, "error", "serializing a struct fails"):
                        continue
                    cty = vfield(E, rty, "Ok")
                    for s4, c in S.alts(s3, lambda t: expand1(E, t, p)):
                        if not S.holds(vname(E, cty, c) == "Struct", s4, "chunk", "a struct is serialized as %s" % vname(E, cty, c)):
                            continue
                        some = True
                        em = c[2][0]
                        em = em if em[0] == "R" else E.expand(s4, em)
                        Emit(S, d, x, x).run(s4, em)
            root2 = "root_v_finish"
            for s2, r in S.call(s, root2, [dd, state_arg(S, root2)], "finish"):
                for s3, okk, p in S.result(s2, P.ret(root2), r):
                    S.holds(okk, s3, "error", "finishing a struct fails")
        S.holds(some, St(), "never", "serialize() never returns a struct")
        rep.inc("structs serialized")
        rep.sample("%s: fields %s" % (S.what, [d.wire(f) for f in d.fields]))


def type_name(S, st, de, d):
    P, E = S.P, S.E
    want = d.rename or d.name
    ty = P.ret("root_desc")
    for s, r in S.call(st, "root_desc", [de], "name of the descriptor"):
        def f(t):
            v = r if r[0] == "S" else E.expand(t, r)
            n = expand1(E, t, v[1][0])
            return None if n[1] == 0 else sid(S, t, n[2][0])

        for s2, n in S.alts(s, f):
            S.holds(n == ("c", tuple(want.encode())), s2, "type-name", "the type name is %r instead of %r" % (n and piece_text(n), want))


# ------------------------------------------------------------------ enums
def serialize_enums(S, specs):
    P, E, rep = S.P, S.E, S.rep
    for d in specs:
        root = "root_s_" + dspec.root(d.name)
        S.what = "Serialize for the derived %s" % d.name
        ty = P.pointee(P.argty(root))
        idents = [v[0] for v in P.T[ty]["v"]]
        seen = set()
        for s, x, dd, r in ser_chunks(S, root):
            rty = P.ret("root_v_serialize")
            for s2, okk, p in S.result(s, rty, r):
                if not S.holds(okk, s2, "error", "serializing a variant fails"):
                    continue

                def f(t):
                    v = expand1(E, t, E.load(t, x[1], x[2]))
                    return v[1], atom_of(S, t, p, vfield(E, rty, "Ok"))

                for s3, (i, a) in S.alts(s2, f):
                    seen.add(i)
                    want = d.wire(d.variants[i])
                    if S.holds(a is not None and a[0] == "Str", s3, "atom", "the variant %s is not a string" % idents[i]):
                        n = sid(S, s3, a[1])
                        S.holds(n == ("c", tuple(want.encode())), s3, "name", "the variant %s is written as %r instead of %r" % (idents[i], piece_text(n), want))
        S.holds(len(seen) == len(d.variants), St(), "never", "some variants are never written")
        rep.inc("enums serialized")
        rep.sample("%s: variants %s" % (S.what, [d.wire(f) for f in d.variants]))


def names_of(d, members):
    """name -> member, for deserialization"""
    out = {}
    for i, f in enumerate(members):
        if f.flatten:
            continue
        for n in (d.wire(f),) + f.aliases:
            assert n not in out, (d.name, n)
            out[n] = i
    return out


def truth(st, ident):
    """the constant the symbolic text is known to equal on this path"""
    for k, v in st.exp.items():
        if k[0] == "teq" and k[1] == ident and v == 1:
            return bytes(k[2][1]).decode("utf8", "replace")
    return None


def enum_sinks(rep, mon, S):
    """C13 for derived enums: success stores the named variant, everything else is refused"""
    S2 = Sim(dprog(), mon.__class__(dprog()), rep, S.prop)
    enums(S2, dspec.ENUMS)
    finish_check(rep, [S2.mon], [S2])


def enums(S, specs):
    P, E, rep = S.P, S.E, S.rep
    for d in specs:
        root = "root_d_" + dspec.root(d.name)
        S.what = "Deserialize for the derived %s" % d.name
        want = names_of(d, d.variants)
        got = {}
        kinds = set()
        for s, kind, p, okk, e, slot, k, hp in feed_atom(S, root):
            kinds.add((kind, okk))
            name = None
            if kind == "Str":
                import models

                name = truth(s, models.seq_id(E, S.pre, p))
            for s2, v in S.alts(s, lambda t: slot_value(S, t, slot)):
                if not okk:
                    S.holds(v is None, s2, "stored", "a refused %s atom changes the slot" % kind)
                    kd = S.kind(s2, e)
                    S.holds(kd in (None, "Unexpected"), s2, "error-kind", "a %s atom is refused with the error %s" % (kind, kd))
                    if kind == "Str":
                        S.holds(name not in want, s2, "refused", "the name %r is refused" % name)
                    continue
                if not S.holds(kind == "Str", s2, "accepts", "an atom of kind %s is accepted" % kind):
                    continue
                if not S.holds(name is not None, s2, "accepts-any", "a string which is not a name of a variant is accepted"):
                    continue
                if not S.holds(v is not None, s2, "not-filled", "reports success for %r but leaves the slot empty" % name):
                    continue
                for s3, x in S.alts(s2, lambda t: expand1(E, t, v)):
                    i = want.get(name)
                    S.holds(i is not None and x[1] == i, s3, "variant", "the name %r gives the variant %s instead of %s" % (name, d.variants[x[1]].ident, d.variants[i].ident if i is not None else "an error"))
                    got[name] = x[1]
        for n in want:
            S.holds(n in got, St(), "never", "the name %r is never accepted" % n)
        for kind in ATOMS:
            S.holds(any((kind, b) in kinds for b in (True, False)), St(), "no-answer", "%s atoms have no outcome" % kind)
        # containers are refused
        for m in ("map", "seq"):
            for s, slot, k, hp in open_sink(S, root):
                rr = "root_k_" + m
                for s2, r in S.call(s, rr, [k, state_arg(S, rr)], m):
                    for s3, okk, p in S.result(s2, P.ret(rr), r):
                        S.holds(not okk, s3, "accepts", "a %s is accepted" % m)
        rep.inc("enums deserialized")
        rep.sample("%s: %d names" % (S.what, len(want)))


# ------------------------------------------------------------------ struct sinks
class DMon(Mon):
    """sinks of opaque field types remember their slot"""

    mapold = True
    failing = ()  # the types whose sinks may fail

    def o_deserialize_into(self, E, st, call):
        h = N("h")
        slot = call.args[0]
        oty = self.P.pointee(call.argtys[0]) if call.argtys else self.P.pointee(call.x["locals"][1])
        fty = self.P.T[oty]["args"][0]
        self.log(st, "deserialize_into", slot, fty)
        st.ghost = st.ghost._replace(mode=(st.ghost.mode or ()) + ((h, slot, fty),))
        return enumv(E, call.destty, "Owned", E.mk(vfield(E, call.destty, "Owned"), (h,)))

    def child(self, st, tok):
        for h, slot, fty in st.ghost.mode or ():
            if h in tok:
                return h, slot, fty
        return None

    def o_make(self, E, st, call):
        r = E.fresh(st, call.destty, "made")
        self.log(st, "make", call.destty, r)
        return r

    def o_default(self, E, st, call):
        r = E.fresh(st, call.destty, "defaulted")
        self.log(st, "default", call.destty, r)
        return r

    def format(self, E, st, call):
        """keeps the text of the arguments"""
        import models

        out = []

        def walk(x, n=0):
            if type(x) is not tuple or not x or n > 12:
                return
            if x[0] == "fmtarg":
                try:
                    i = models.seq_id(E, st, models.deref_str(E, st, x[2]))
                    out.extend(("b", b) for b in i[1] if type(b) is int)
                except (Unknown, UB, IndexError, TypeError):
                    pass
                return
            if x[0] == "R":
                walk(E.load(st, x[1], x[2]), n + 1)
                return
            for y in x:
                walk(y, n + 1)

        walk(tuple(call.args))
        ps = (("pc", "any", N("fmt")),) + tuple(out) + (("pc", "any", N("fmt")),)
        return ("S", (("V", E.alloc(st, ("T", ps), "s")),))

    def v_Sink(self, E, st, call, m):
        c = self.child(st, call.tok)
        if m in ("descriptor", "expecting") or c is None:
            r = E.fresh(st, call.destty, m)
            self.log(st, m, (call.tok,) + tuple(call.args[1:]), r)
            return r
        h, slot, fty = c
        okty = vfield(E, call.destty, "Ok")
        if m == "value_for_key":
            # does this flattened struct know the key?
            k = choose(st, 3 if fty in self.failing else 2)
            if k == 2:
                r = enumv(E, call.destty, "Err", E.mk(vfield(E, call.destty, "Err"), (N("err"),)))
            elif k == 1:
                r = enumv(E, call.destty, "Ok", enumv(E, okty, "Some", E.mk(vfield(E, okty, "Some"), (N("nested"),))))
            else:
                r = enumv(E, call.destty, "Ok", enumv(E, okty, "None"))
            self.log(st, m, (h, fty) + tuple(call.args[1:]), r)
            return r
        if m == "finish":
            k = choose(st, 3 if fty in self.failing else 1)
            if k == 1:
                r = enumv(E, call.destty, "Err", E.mk(vfield(E, call.destty, "Err"), (N("err"),)))
                self.log(st, m, (h, fty), r)
                return r
            if k == 0:
                E.store(st, slot[1], slot[2], ("E", 1, (E.mk(fty, (("el", h),)),)))
            else:
                self.log(st, "nothing stored", h)
            r = enumv(E, call.destty, "Ok", ("S", ()))
            self.log(st, m, (h, fty), r)
            return r
        r = enumv(E, call.destty, "Ok", ("S", ())) if m in ("atom", "map", "seq") else E.fresh(st, call.destty, m)
        self.log(st, m, (h, fty) + tuple(call.args[1:]), r)
        return r


def field_index(S, d, fty, ftys):
    """which field does a slot of this type belong to? (the field types are all different)"""
    for i, t in enumerate(ftys):
        if t == fty:
            return i
        x = S.P.T[t]
        if x["k"] == "adt" and x["path"].endswith("::Option") and x["args"][0] == fty:
            return i
    return None


def ftypes(S, d):
    root = "root_d_" + dspec.root(d.name)
    ty = S.P.T[S.P.pointee(S.P.argty(root))]["args"][0]
    return [f[1] for f in S.P.T[ty]["v"][0][2]]


def key_table(S, specs):
    """C18: value_for_key on an arbitrary key"""
    P, E, rep = S.P, S.E, S.rep
    import models

    root = "root_k_value_for_key"
    rty = P.ret(root)
    others = set()
    for d in specs:
        for f in d.fields:
            others.add(dspec.unraw(f.ident))
            others.update(dspec.field_style(x, f.ident) for x in dspec.STYLES)
    for d in specs:
        S.what = "Deserialize for the derived %s" % d.name
        want = names_of(d, d.fields)
        tys = ftypes(S, d)
        got = {}
        for s, slot, k, hp in open_sink(S, "root_d_" + dspec.root(d.name)):
            for s2, de in S.call(s, "root_k_descriptor", [k], "descriptor"):
                type_name(S, s2, de, d)
            # an arbitrary text
            key = E.mk(P.argty(root, 1), (N("key"),))
            for s1, ident in S.alts(s, lambda t: models.seq_id(E, t, key)):
                for s2, r in S.call(s1, root, [k, key, state_arg(S, root, 2)], "value_for_key"):
                    one_key(S, s2, rty, r, d, want, tys, truth(s2, ident), got)
            for n in want:
                S.holds(n in got, St(), "never", "the key %r is never recognised" % n)
            # the names themselves and those of the other styles
            for n in sorted(set(want) | others | {UNKNOWN_KEY}):
                t = s.copy()
                kt = text(E, t, n)
                for s2, r in S.call(t, root, [k, kt, state_arg(S, root, 2)], "value_for_key(%s)" % n):
                    one_key(S, s2, rty, r, d, want, tys, n, {})
        rep.inc("structs deserialized")
        rep.sample("%s: %d keys" % (S.what, len(want)))


def one_key(S, st, rty, r, d, want, tys, name, got):
    E = S.E
    for s, okk, p in S.result(st, rty, r):
        if not S.holds(okk, s, "key-error", "asking for the key %r fails" % name):
            continue
        for s2, o in S.alts(s, lambda t: expand1(E, t, p)):
            opened = [e for e in s2.ghost.log if e[0] == "deserialize_into"]
            if o[1] == 0:
                S.holds(name not in want, s2, "unknown-key", "the key %r is not recognised" % name)
                continue
            if not S.holds(name is not None, s2, "any-key", "a key which is not a name of a field is recognised"):
                continue
            if not S.holds(len(opened) == 1, s2, "slots", "the key %r opens %d slots" % (name, len(opened))):
                continue
            i = field_index(S, d, opened[0][2], tys)
            w = want.get(name)
            S.holds(w is not None and i == w, s2, "field", "the key %r leads to the field %s instead of %s" % (name, d.fields[i].ident if i is not None else "?", d.fields[w].ident if w is not None else "none"))
            got[name] = i
            S.rep.inc("keys")


# ------------------------------------------------------------------ C21, C23: whole structs
class Fill:
    """sequences of keys and values for the sink of a derived struct, against the specification"""

    def __init__(self, S, d):
        self.S = S
        self.P = S.P
        self.E = S.E
        self.d = d
        self.ty = S.P.T[S.P.pointee(S.P.argty("root_d_" + dspec.root(d.name)))]["args"][0]

    # -- specification
    def route(self, d, key, path=()):
        """the field a key belongs to: (path, field), None if unknown, or ('opaque', paths) if a flattened user type may know it"""
        for i, f in enumerate(d.fields):
            if not f.flatten and (key == d.wire(f) or key in f.aliases):
                return path + (i,), f
        for i, f in enumerate(d.fields):
            if f.flatten and f.flatten != "opaque":
                r = self.route(dspec.BYNAME[f.flatten], key, path + (i,))
                if r is not None:
                    return r
        return None

    def leaves(self, d, path=()):
        for i, f in enumerate(d.fields):
            if f.flatten and f.flatten != "opaque":
                yield from self.leaves(dspec.BYNAME[f.flatten], path + (i,))
            elif not f.flatten:
                yield path + (i,), f, d

    def missing(self, d, have, path=()):
        """the names of the fields which have no value and no default; nested structs come first"""
        for i, f in enumerate(d.fields):
            if f.flatten and f.flatten != "opaque":
                m = self.missing(dspec.BYNAME[f.flatten], have, path + (i,))
                if m:
                    return m
        if d.default:
            return []
        return [d.wire(f) for i, f in enumerate(d.fields) if not f.flatten and path + (i,) not in have and not f.default and not f.opt]

    # -- driving the sink
    def deliver(self, st, h, null):
        """completes a nested value: (state, element or None for null)"""
        S, P, E = self.S, self.P, self.E
        hp = ("R", E.alloc(st, h, "h"), (), None)
        aty = P.argty("root_k_atom", 1)
        rty = P.ret("root_k_atom")
        av = enumv(E, aty, "Null") if null else enumv(E, aty, "U64", 5)
        n0 = len(st.ghost.mode or ())
        for s, k in S.call(st, "root_sink_mut", [hp], "nested sink"):
            for s2, r in S.call(s, "root_k_atom", [k, av, state_arg(S, "root_k_atom", 2)], "nested atom"):
                for s3, okk, _ in S.result(s2, rty, r):
                    if not S.holds(okk, s3, "value-refused", "the value of a field is refused"):
                        continue
                    for s4, r4 in S.call(s3, "root_k_finish", [k, state_arg(S, "root_k_finish")], "nested finish"):
                        for s5, ok5, _ in S.result(s4, P.ret("root_k_finish"), r4):
                            if not S.holds(ok5, s5, "value-refused", "the value of a field is refused"):
                                continue
                            for s6, _ in S.drop(s5, hp, P.argty("root_sink_drop"), "drop of the nested sink"):
                                yield s6

    def string_key(self, st, h, name):
        S, P, E = self.S, self.P, self.E
        hp = ("R", E.alloc(st, h, "h"), (), None)
        aty = P.argty("root_k_atom", 1)
        i = vindex(E, aty, "Str")
        cty = E.T[aty]["v"][i][2][0][1]
        for s, k in S.call(st, "root_sink_mut", [hp], "key sink"):
            av = ("E", i, (enumv(E, cty, "Borrowed", text(E, s, name)),))
            for s2, r in S.call(s, "root_k_atom", [k, av, state_arg(S, "root_k_atom", 2)], "key %s" % name):
                for s3, okk, _ in S.result(s2, P.ret("root_k_atom"), r):
                    if not S.holds(okk, s3, "key-refused", "the key %r is refused" % name):
                        continue
                    for s4, r4 in S.call(s3, "root_k_finish", [k, state_arg(S, "root_k_finish")], "key finish"):
                        for s5, ok5, _ in S.result(s4, P.ret("root_k_finish"), r4):
                            if not S.holds(ok5, s5, "key-refused", "the key %r is refused" % name):
                                continue
                            for s6, _ in S.drop(s5, hp, P.argty("root_sink_drop"), "drop of the key sink"):
                                yield s6

    def request(self, st, k, name, protocol):
        """the handle for the value of a key: (state, handle or None)"""
        S, P, E = self.S, self.P, self.E
        if not protocol:
            root = "root_k_value_for_key"
            t = st.copy()
            kt = text(E, t, name)
            for s, r in S.call(t, root, [k, kt, state_arg(S, root, 2)], "value_for_key(%s)" % name):
                for s2, okk, p in S.result(s, P.ret(root), r):
                    if not S.holds(okk, s2, "key-error", "asking for the key %r fails" % name):
                        continue
                    for s3, o in S.alts(s2, lambda t: expand1(E, t, p)):
                        yield s3, o[2][0] if o[1] else None
            return
        root = "root_k_next_key"
        for s, r in S.call(st, root, [k, state_arg(S, root)], "next_key"):
            for s2, okk, p in S.result(s, P.ret(root), r):
                if not S.holds(okk, s2, "key-error", "asking for the sink of a key fails"):
                    continue
                for s3 in self.string_key(s2, p, name):
                    root = "root_k_next_value"
                    for s4, r4 in S.call(s3, root, [k, state_arg(S, root)], "next_value of %s" % name):
                        for s5, ok5, p5 in S.result(s4, P.ret(root), r4):
                            if S.holds(ok5, s5, "key-error", "asking for the value of the key %r fails" % name):
                                yield s5, p5

    def feed(self, st, k, slot, keys, protocol):
        """delivers (key, null) pairs: (state, {path: expected value})"""
        S, E = self.S, self.E
        states = [(st, {})]
        for name, null in keys:
            nxt = []
            r = self.route(self.d, name)
            for s, have in states:
                n0 = len(s.ghost.mode or ())
                for s2, h in self.request(s, k, name, protocol):
                    if r is None:
                        if not protocol:
                            S.holds(h is None, s2, "unknown-key", "the unknown key %r is recognised" % name)
                        else:
                            # it is accepted and ignored
                            for s3 in self.deliver(s2, h, null):
                                S.holds(len(s3.ghost.mode or ()) == n0, s3, "unknown-key", "the value of the unknown key %r is stored" % name)
                                nxt.append((s3, have))
                            continue
                        nxt.append((s2, have))
                        continue
                    path, f = r
                    if not S.holds(h is not None, s2, "known-key", "the key %r is not recognised" % name):
                        continue
                    nul = null and f.opt
                    for s3 in self.deliver(s2, h, nul):
                        new = (s3.ghost.mode or ())[n0:]
                        if nul:
                            val = None
                        else:
                            if not S.holds(len(new) == 1, s3, "slots", "the value of the key %r goes to %d slots" % (name, len(new))):
                                continue
                            hh, _, fty = new[0]
                            val = E.mk(fty, (("el", hh),))
                        nxt.append((s3, {**have, path: val}))
                for s2, have2 in nxt:
                    for s3, v in S.alts(s2, lambda t: slot_value(S, t, slot)):
                        S.holds(v is None, s3, "early", "the struct appears before it is finished")
            states = nxt
        return states

    def run(self, keys, protocol, drop=True):
        S, P, E, d = self.S, self.P, self.E, self.d
        for s, slot, k, hp in open_sink(S, "root_d_" + dspec.root(d.name)):
            flat = [m for m in s.ghost.mode or ()]  # sinks of flattened user types
            for s1, r in S.call(s, "root_k_map", [k, state_arg(S, "root_k_map")], "map"):
                for s2, okk, _ in S.result(s1, P.ret("root_k_map"), r):
                    if not S.holds(okk, s2, "map", "a map is refused"):
                        continue
                    for s3, have in self.feed(s2, k, slot, keys, protocol):
                        self.finish(s3, slot, k, hp, have)
        S.rep.inc("key sequences")

    def finish(self, st, slot, k, hp, have):
        S, P, E, d = self.S, self.P, self.E, self.d
        root = "root_k_finish"
        miss = self.missing(d, have)
        present = " ".join(sorted(str(p) for p in have)) or "nothing"
        for s, r in S.call(st, root, [k, state_arg(S, root)], "finish with %s" % present):
            for s2, okk, p in S.result(s, P.ret(root), r):
                for s3, v in S.alts(s2, lambda t: slot_value(S, t, slot)):
                    log = s3.ghost.log
                    flat = [m[0] for m in s3.ghost.mode or () if any(f.flatten == "opaque" and self.P.T[self.ty]["v"][0][2][i][1] == m[2] for i, f in enumerate(d.fields))]
                    done = [e[1][0] for e in log if e[0] == "finish" and e[1][0] in flat]
                    S.holds(done == flat if okk else done == flat[: len(done)], s3, "flatten-finish", "the flattened structs are not finished one by one, in order")
                    if not okk:
                        S.holds(v is None, s3, "stored", "a struct is stored although finish() fails")
                        if any(e[0] == "finish" and type(e[-1]) is tuple and e[-1][:2] == ("E", 1) for e in log):
                            continue  # a flattened user type failed
                        if any(e[0] == "nothing stored" for e in log):
                            continue  # or did not store anything
                        if S.holds(miss, s3, "finish-fails", "finish() fails although every field has a value or default (present: %s)" % present):
                            kd = S.kind(s3, p)
                            S.holds(kd in (None, "MissingField"), s3, "error-kind", "a missing field is reported as %s" % kd)
                            txt = text_in(S, s3, p)
                            S.holds(txt is None or any(m in txt for m in miss), s3, "error-name", "the error for the missing field %s says %r" % (" or ".join(miss), txt))
                        continue
                    if not S.holds(not miss, s3, "missing", "the missing field %s is not reported" % " ".join(miss)):
                        continue
                    if not S.holds(v is not None, s3, "not-stored", "finish() reports success but stores nothing"):
                        continue
                    self.compare(s3, d, self.ty, v, have, log, ())
                    for s4, _ in drop_handle(S, s3, hp):
                        for s5, v5 in S.alts(s4, lambda t: slot_value(S, t, slot)):
                            S.holds(v5 is not None, s5, "not-stored", "the struct disappears with the sink")
                    S.rep.inc("structs compared")

    def compare(self, st, d, ty, v, have, log, path):
        S, E, P = self.S, self.E, self.P
        v = v if v[0] == "S" else E.expand(st, v)
        for i, f in enumerate(d.fields):
            got = v[1][i]
            fty = P.T[ty]["v"][0][2][i][1]
            p = path + (i,)
            if f.flatten and f.flatten != "opaque":
                self.compare(st, dspec.BYNAME[f.flatten], fty, got, have, log, p)
                continue
            if f.flatten:
                w = [m for m in st.ghost.mode or () if m[2] == fty]
                if d.default and any(e[0] == "nothing stored" and e[1] == w[0][0] for e in log):
                    continue
                S.holds(len(w) == 1 and same(E, st, got, E.mk(fty, (("el", w[0][0]),))), st, "flattened", "the flattened field %s is not what its sink stored" % f.ident)
                continue
            for s, g in S.alts(st, lambda t: expand1(E, t, got) if f.opt and p in have else got):
                if p in have:
                    if f.opt:
                        okv = g[0] == "E" and (g[1] == 0 if have[p] is None else g[1] == 1 and same(E, s, g[2][0], have[p]))
                    else:
                        okv = same(E, s, g, have[p])
                    S.holds(okv, s, "present", "the field %s does not keep the value it received" % f.ident)
                    continue
                if f.default:
                    if f.opt and f.default == "impl":
                        S.holds(g[0] == "E" and g[1] == 0, s, "field-default", "the missing field %s is not filled with its own default" % f.ident)
                        continue
                    what = "make" if f.default == "fn" else "default"
                    w = [e[2] for e in log if e[0] == what and e[1] == fty]
                    S.holds(any(same(E, s, g, x) for x in w), s, "field-default", "the missing field %s is not filled with its own default" % f.ident)
                    continue
                if d.default:
                    w = [e[2] for e in log if e[0] == "make" and e[1] == ty]
                    S.holds(any(same(E, s, g, (x if x[0] == "S" else E.expand(s, x))[1][i]) for x in w), s, "container-default", "the missing field %s is not filled with that field of the default of the struct" % f.ident)
                    continue
                S.holds(f.opt and g[0] == "E" and g[1] == 0, s, "none", "the missing optional field %s is not None" % f.ident)


def text_in(S, st, v):
    """all constant text in a value (an error message)"""
    E = S.E
    out = []
    seen = set()

    def walk(x):
        if type(x) is not tuple or not x:
            return
        if x[0] == "A" and x[1] and all(type(b) is int for b in x[1]):
            out.append(bytes(b & 255 for b in x[1]).decode("utf8", "replace"))
            return
        if x[0] == "T":
            for y in x[1]:
                if y[0] == "b" and type(y[1]) is int:
                    out.append(chr(y[1]))
            return
        if x[0] in ("V", "M", "R"):
            if x[1] in seen:
                return
            seen.add(x[1])
            try:
                walk(E.content(st, x[1]))
            except (UB, Unknown, Fork):
                pass
            return
        if x[0] == "O":
            out.append("\0")
            return
        for y in x[1:]:
            if type(y) is tuple:
                if y and type(y[0]) is str:
                    walk(y)
                else:
                    for z in y:
                        walk(z)

    walk(v)
    t = "".join(out)
    return t


def subsets(l):
    for m in range(1 << len(l)):
        yield [x for i, x in enumerate(l) if m >> i & 1]


def fills(S, d, tier):
    F_ = Fill(S, d)
    leaves = list(F_.leaves(d))
    S.what = "Deserialize for the derived %s" % d.name
    n = len(leaves)
    for q, sub_ in enumerate(subsets(leaves)):
        def key(f, dd, alt):
            return f.aliases[0] if f.aliases and alt else dd.wire(f)

        F_.run([(key(f, dd, 0), False) for p, f, dd in sub_], False)
        few = len(sub_) <= 2 or len(sub_) >= n - 1
        if few or tier == "thorough":
            ks = [(key(f, dd, 0 if S.what else 0), True) for p, f, dd in reversed(sub_)]
            opaque = any(f.flatten == "opaque" for f in d.fields)
            F_.run(ks if opaque else [(UNKNOWN_KEY, True)] + ks + [(UNKNOWN_KEY + "2", False)], True)
            F_.run(ks, False)
    S.rep.inc("structs")
    S.rep.sample("%s: all %d subsets of %d fields" % (S.what, 1 << n, n))


def check_C21(rep, tier):
    P = dprog()
    mon = DMon(P)
    S = Sim(P, mon, rep, "C21")
    for d in dspec.DEFAULTS + [dspec.INNER, dspec.INNER2]:
        fills(S, d, tier)
    finish_check(rep, [mon], [S])
    return dict(
        explanation="Abstract interpretation of the sinks of derived structs with all combinations of field default (Default, named function), container default (none, Default, named function), Option and plain fields: every subset of the fields is delivered (directly by name in declaration order, and as key events in reverse order mixed with unknown keys), then the struct is finished and compared field by field with the documented defaults.",
        coverage=dict(rule="present: the received term; else the term the field default returned; else that field of the container default; else None; else a missing-field error which names the field, and no output"),
        assumptions=ASSUME_D,
    )


def newtype_sinks(rep, mon, S):
    from . import wrap

    S2 = Sim(dprog(), mon.__class__(dprog()), rep, S.prop)
    wrap.wrappers(S2, {k: v for k, v in wrap.WRAP.items() if "newtype" in k})
    finish_check(rep, [S2.mon], [S2])


def newtype_sers(rep):
    mon = Mon(dprog())
    S = Sim(dprog(), mon, rep, "C10")
    n = wrapped(S, {k: v for k, v in WRAPPERS.items() if "newtype" in k})
    finish_check(rep, [mon], [S])
    return n


ASSUME_D = ASSUME_V + ["the derives generate code attribute by attribute: what holds for the %d derived types of the fixture (all attribute kinds and combinations listed in sa/dspec.py) holds for other fields and names" % (len(dspec.structs()) + len(dspec.ENUMS))]


def offers(S, d):
    """C23: a key which the outer struct does not know is offered to the flattened structs in turn"""
    import models

    P, E, rep = S.P, S.E, S.rep
    root = "root_k_value_for_key"
    rty = P.ret(root)
    want = names_of(d, d.fields)
    tys = ftypes(S, d)
    S.what = "Deserialize for the derived %s" % d.name
    for s, slot, k, hp in open_sink(S, "root_d_" + dspec.root(d.name)):
        flat = [m[0] for i, f in enumerate(d.fields) if f.flatten for m in s.ghost.mode or () if m[2] == tys[i]]
        S.holds(len(flat) == sum(1 for f in d.fields if f.flatten), s, "flatten-sinks", "not every flattened field has a sink")
        key = E.mk(P.argty(root, 1), (N("key"),))
        for s1, ident in S.alts(s, lambda t: models.seq_id(E, t, key)):
            for s2, r in S.call(s1, root, [k, key, state_arg(S, root, 2)], "value_for_key"):
                name = truth(s2, ident)
                calls = [e for e in s2.ghost.log if e[0] == "value_for_key"]
                for s3, okk, p in S.result(s2, rty, r):
                    if name in want:
                        S.holds(not calls, s3, "offered", "the key %r of the outer struct is offered to a flattened struct" % name)
                        continue
                    got = [c[1][0] for c in calls]
                    if not S.holds(got == flat[: len(got)], s3, "order", "the key is not offered to the flattened structs in order"):
                        continue
                    for c in calls:
                        S.holds(same(E, s3, c[1][2], key), s3, "key", "another key is offered to the flattened struct")
                    last = calls[-1][-1] if calls else None
                    kind = None
                    if last is not None:
                        x = expand1(E, s3, last)
                        kind = "err" if x[1] == 1 else "some" if expand1(E, s3, x[2][0])[1] == 1 else "none"
                    for c in calls[:-1]:
                        x = c[-1]
                        S.holds(x[1] == 0 and x[2][0][1] == 0, s3, "not-first", "a later flattened struct is asked although an earlier one knows the key")
                    if kind == "err":
                        S.holds(not okk, s3, "flatten-error", "the error of the flattened struct is not returned")
                        continue
                    if not S.holds(okk, s3, "key-error", "asking for a key fails"):
                        continue
                    for s4, o in S.alts(s3, lambda t: expand1(E, t, p)):
                        if kind == "some":
                            S.holds(o[1] == 1 and same(E, s4, o, expand1(E, s4, last)[2][0]), s4, "stored-elsewhere", "the sink of the flattened struct which knows the key is not used")
                        else:
                            S.holds(len(got) == len(flat), s4, "not-offered", "an unknown key is not offered to every flattened struct")
                            S.holds(o[1] == 0, s4, "any-key", "a key nobody knows is recognised")
    rep.inc("offers")


def builtin_optionals(S):
    """C22: which types report to be optional; None is null"""
    P, E, rep = S.P, S.E, S.rep
    for n in sorted(P.byname):
        if not n.startswith("roots::root_s_") or n in ("roots::root_s_hset",):
            continue
        root = n[7:]
        ty = P.T[P.rep(P.pointee(P.argty(root)))]
        path = ty.get("path") or ty["k"]
        while ty["k"] in ("ref", "ptr"):
            ty = P.T[P.rep(ty["e"])]
            path = ty.get("path") or ty["k"]
        if ty["p"].startswith("opq::") or "newtype" in root:
            continue
        S.what = "Serialize for %s" % ty["p"]
        unit = ty["k"] == "tuple" and not ty["f"]
        opt = path.endswith("::Option")
        st = S.new()
        x = E.mk(P.argty(root), (N("x"),))
        for s, dd in S.call(st, root, [x]):
            for s2, r in S.call(s, "root_v_is_optional", [dd], "is_optional"):
                if unit:
                    S.holds(r == 1, s2, "optional", "the unit value is not optional")
                elif opt:
                    for s3, v in S.alts(s2, lambda t: expand1(E, t, E.load(t, x[1], x[2]))):
                        S.holds(r == int(v[1] == 0), s3, "optional", "%s is %soptional" % ("None" if v[1] == 0 else "Some", "" if r == 1 else "not "))
                else:
                    S.holds(r == 0, s2, "optional", "%s is optional" % ty["p"])
        rep.inc("types asked whether they are optional")


def nulls(S):
    """C22: None becomes null, null becomes None"""
    P, E, rep = S.P, S.E, S.rep
    S.what = "Serialize for Option"
    rty = P.ret("root_v_serialize")
    for s, x, dd, r in ser_chunks(S, "root_s_opt"):
        for s2, v in S.alts(s, lambda t: expand1(E, t, E.load(t, x[1], x[2]))):
            if v[1] == 1:
                continue
            for s3, okk, p in S.result(s2, rty, r):
                for s4, a in S.alts(s3, lambda t: atom_of(S, t, p, vfield(E, rty, "Ok")) if okk else None):
                    S.holds(a is not None and a[0] == "Null", s4, "null", "None does not become null")
    S.what = "Deserialize for Option"
    for root in ("root_d_opt", "root_d_optbox", "root_d_optnull"):
        if "roots::" + root not in P.byname:
            continue
        for s, slot, k, hp in open_sink(S, root):
            aty = P.argty("root_k_atom", 1)
            for s2, r in S.call(s, "root_k_atom", [k, enumv(E, aty, "Null"), state_arg(S, "root_k_atom", 2)], "atom(Null)"):
                for s3, okk, p in S.result(s2, P.ret("root_k_atom"), r):
                    if not S.holds(okk, s3, "null", "null is refused"):
                        continue
                    for s4, r4 in S.call(s3, "root_k_finish", [k, state_arg(S, "root_k_finish")], "finish"):
                        for s5, ok5, p5 in S.result(s4, P.ret("root_k_finish"), r4):
                            if not S.holds(ok5, s5, "null", "finish() fails for null"):
                                continue
                            for s6, v in S.alts(s5, lambda t: slot_value(S, t, slot)):
                                if S.holds(v is not None, s6, "null", "null leaves no value"):
                                    for s7, o in S.alts(s6, lambda t: expand1(E, t, v)):
                                        S.holds(o[1] == 0, s7, "null", "null does not become None")
        rep.inc("nulls")


def check_C22(rep, tier):
    P = dprog()
    mon = SMon(P)
    S = Sim(P, mon, rep, "C22")
    serialize_structs(S, dspec.SKIPS + [dspec.INNER, dspec.INNER2], "C22")
    P0 = prog()
    m0 = DMon(P0)
    S0 = Sim(P0, m0, rep, "C22")
    builtin_optionals(S0)
    nulls(S0)
    builtin_optionals(S)
    finish_check(rep, [mon, m0], [S, S0])
    return dict(
        explanation="Abstract interpretation of the emitters of derived structs with all combinations of skip_serializing_if and skip_serializing_optionals (also flattened): predicates and is_optional of the opaque field types may answer anything; on every path the set of emitted fields must be exactly the set for which nothing asks for omission, and every omission or emission must follow from answers which were asked for on that path. is_optional of every built-in type is computed; None and null are followed both ways.",
        coverage=dict(rule="emitted iff neither skip_serializing_if answered true nor (skip_serializing_optionals and the value is optional); once, in order, own value; decisions without asking are violations"),
        assumptions=ASSUME_D + ["predicates and is_optional give the same answer when asked again about the same value"],
    )


def check_C23(rep, tier):
    P = dprog()
    mon = SMon(P)
    S = Sim(P, mon, rep, "C23")
    serialize_structs(S, dspec.FLATS + [dspec.FL5] + [d for d in dspec.SKIPS if "Flat" in d.name], "C23")
    dm = DMon(P)
    S2 = Sim(P, dm, rep, "C23")
    for d in dspec.FLATS + [dspec.FL5]:
        fills(S2, d, tier)
    fm = DMon(P)
    S3 = Sim(P, fm, rep, "C23")
    for d in dspec.FLATS[:2]:
        fm.failing = [t for f, t in zip(d.fields, ftypes(S3, d)) if f.flatten]
        offers(S3, d)
        S3.what = "Deserialize for the derived %s" % d.name
        F_ = Fill(S3, d)
        F_.run([], False)
        F_.run([(f.ident, False) for p, f, dd in F_.leaves(d)], False)
    finish_check(rep, [mon, dm, fm], [S, S2, S3])
    return dict(
        explanation="Abstract interpretation of the emitters and sinks of derived structs with flattened fields, both opaque user types (which may yield any number of fields, know any key and fail at any point) and nested derived structs: the emission must be that of the flattened struct in place, in full, followed by its finish hook; unknown keys must be offered to the flattened structs in order and go to the first that knows them; finish calls come in order before the outer struct is stored; errors are returned.",
        coverage=dict(rule="reference emitter and reference key routing, compared on every path; inner emission by induction over equal emitter states"),
        assumptions=ASSUME_D,
    )


def check_C18(rep, tier):
    P = dprog()
    mon = SMon(P)
    S = Sim(P, mon, rep, "C18")
    serialize_structs(S, dspec.NAMES + dspec.DEFAULTS[:4], "C18")
    serialize_enums(S, dspec.ENUMS)
    enums(S, dspec.ENUMS)
    dm = DMon(P)
    S2 = Sim(P, dm, rep, "C18")
    key_table(S2, dspec.NAMES + dspec.DEFAULTS[:4])
    finish_check(rep, [mon, dm], [S, S2])
    return dict(
        explanation="Abstract interpretation of the code the derives generate for a table of structs and enums (every rename_all style times plain identifiers, raw identifiers, rename, aliases and both): the emitter must yield the documented names in declaration order with the field of that name; an arbitrary symbolic key must lead to the field whose name or alias it equals and to none otherwise; likewise enum variants.",
        coverage=dict(rule="name tables computed from the documentation, compared with the constants in the generated MIR on all paths over a symbolic key"),
        assumptions=ASSUME_D,
    )
