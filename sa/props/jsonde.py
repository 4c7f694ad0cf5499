"""The JSON reader (C04, C05, C06, reading half of C08).

The reader is interpreted on a symbolic input of symbolic length, from an unknown position, together
with a recogniser of RFC 8259 which reads the same symbolic bytes.  At every loop head the state is
generalised (the position is renamed, numbers and strings which the recogniser knows become one
symbol, the bottom of the container stack is hidden), so that finitely many states cover every input.
"""
from collections import namedtuple

from .common import *
from .drivers import NH, ubkey
from engine import FTABS, NIL, UNINIT, UNIT, fval
from engine import fl as isfloat
from num import ATOMTY, Dom, INF, iv_compl, iv_inter, iv_norm, iv_size

PA = ("Pos",)
HID = ("y", ((NH, 1),), 0)
U64 = (1 << 64) - 1
MAXLEN = (1 << 62) - 1

# mode: what the grammar expects next between tokens
#   val (a value), valc (value or ]), key (a key), keyc (key or }), colon, after (, or an end)
# lex: ('ws',) ('lit', rest, event) ('num', phase, neg, val, exp) ('str', phase, iskey, pieces, segstart, hex)
G = namedtuple("G", "mode lex stk pend pos dead derr slot bad oor ctx", defaults=((),))
WS = (9, 10, 13, 32)
DIG = tuple(range(48, 58))
NUMCONT = {"sign": DIG, "zero": (46, 69, 101), "int": DIG + (46, 69, 101), "dot": DIG, "frac": DIG + (69, 101), "e": DIG + (43, 45), "esign": DIG, "exp": DIG}
LADDER = (0, 15, 255, 288, 4095, 0xD7FF, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, U64)
NLADDER = (0, -1, -(1 << 31), -(1 << 63))
I31 = (1 << 31) - 1


def ivs_of(vals):
    r = []
    for v in sorted(vals):
        if r and r[-1][1] == v - 1:
            r[-1][1] = v
        else:
            r.append([v, v])
    return tuple((a, b) for a, b in r)


def ladder(lo, hi):
    for x in LADDER:
        if hi <= x:
            if lo >= 0:
                break
            # mixed or negative
            break
    else:
        x = INF
    if hi < 0:
        for y in NLADDER[1:]:
            if hi <= y:
                x = y
    l = 0
    if lo >= 0:
        for y in LADDER:
            if y <= lo and y <= 1:
                l = y
    else:
        l = -INF
        for y in NLADDER:
            if lo >= y:
                l = y
                break
    return l, x


def blocks(s):
    """sets of 16 bit values are described by the surrogate blocks they touch"""
    if s[0][0] < 0 or not 0xD800 <= s[-1][1] <= 0xFFFF:
        return None
    r = []
    for b in ((0, 0xD7FF), (0xD800, 0xDBFF), (0xDC00, 0xDFFF), (0xE000, 0xFFFF)):
        if iv_inter(s, (b,)):
            if r and r[-1][1] + 1 == b[0]:
                r[-1] = (r[-1][0], b[1])
            else:
                r.append(b)
    return tuple(r)


def pidx_of(p):
    if type(p) is tuple and p[0] in ("ix", "@"):
        return p[1]
    return None


class Reader(Client):
    hidden_unknown = True

    def __init__(self, P, rep):
        self.P = P
        self.rep = rep
        self.tuples = set()
        self.waiting = []
        self.leaf = {}
        self.fold = set()
        self.edges = {}
        self.headof = {}
        self.how = {}
        self.ranges = {}
        self.ctxs = {}
        self.cwait = {}
        self.ctxnames = {}
        self.exits = set()
        self.fixed = set()
        self.widening = False
        self.ids = {}
        self.emits = 0
        self.opaques = {}
        m = {}
        for n in P.byname:
            if n.startswith("deser::de::DeserializeDriver"):
                if n.endswith("::new") or n.endswith("::from_sink"):
                    m[n] = self.drv_new
                elif n.endswith("::emit"):
                    m[n] = self.drv_emit
                elif n.endswith("::state"):
                    m[n] = self.opaque
            elif "deser::Error" in n.split(" ")[0] or n.startswith("deser::Error::"):
                if n.startswith("deser::Error::"):
                    m[n] = self.opaque
        for n in ("is_infinite", "is_finite", "is_nan"):
            for t in ("f64", "f32"):
                m["core::%s::<impl %s>::%s" % (t, t, n)] = self.fclass
        m["std::char::methods::<impl char>::from_u32"] = self.from_u32
        m["std::char::from_u32"] = self.from_u32
        m["core::char::convert::from_u32"] = self.from_u32
        m["std::char::convert::from_u32"] = self.from_u32
        m["std::char::convert::char_try_from_u32"] = self.try_from_u32
        m["core::char::convert::char_try_from_u32"] = self.try_from_u32
        m["std::char::methods::<impl char>::encode_utf8"] = self.encode_utf8
        m["std::str::from_utf8_unchecked"] = self.utf8_unchecked
        m["core::str::converts::from_utf8_unchecked"] = self.utf8_unchecked
        self.models = m

    # ------------------------------------------------------------ library functions
    def opaque(self, E, st, c):
        self.opaques[c.name] = self.opaques.get(c.name, 0) + 1
        return E.fresh(st, c.destty, c.name.rsplit("::", 1)[-1])

    def from_u32(self, E, st, c):
        v = c.args[0]
        if E.decide(st, v, ((0, 0xD7FF), (0xE000, 0x10FFFF))):
            return enumv(E, c.destty, "Some", v)
        return enumv(E, c.destty, "None")

    def try_from_u32(self, E, st, c):
        v = c.args[0]
        if E.decide(st, v, ((0, 0xD7FF), (0xE000, 0x10FFFF))):
            return enumv(E, c.destty, "Ok", v)
        return enumv(E, c.destty, "Err", UNIT)

    def encode_utf8(self, E, st, c):
        v = c.args[0]
        if type(v) is int:
            b = tuple(chr(v).encode("utf8"))
            a = E.alloc(st, ("A", b), "chr")
            return ("R", a, (), ("len", len(b)))
        t = ("T", (("pc", "chr", v),))
        a = E.alloc(st, t, "chr")
        return ("R", a, (), ("len", self.lenof(E, st, t)))

    def lenof(self, E, st, v):
        if v[0] == "T":
            n = 0
            for p in v[1]:
                if p[0] == "b":
                    n = add(n, 1)
                elif p[1] == "cp":
                    n = add(n, sub(p[4], p[3]))
                elif p[1] == "chr":
                    s = Dom.set_of(st.dom, p[2])
                    if s and s[-1][1] < 128:
                        n = add(n, 1)
                    else:
                        at = ("fn", "u8len", p[2])
                        ATOMTY.setdefault(at, (1, 4))
                        n = add(n, ("y", ((at, 1),), 0))
                else:
                    at = ("fn", "len", p)
                    ATOMTY.setdefault(at, (1 if p[1] == "dec1" else 0, MAXLEN))
                    n = add(n, ("y", ((at, 1),), 0))
            return n
        raise Unknown("length of " + str(v[0]))

    def append(self, E, st, cont, vals):
        ps = []
        if cont[0] == "A":
            ps = [("b", b) for b in cont[1]]
        elif cont[0] == "T":
            ps = list(cont[1])
        elif cont[0] == "OA":
            ps = [("pc", "cp", cont[2], 0, cont[3])]
        else:
            raise Unknown("append to " + cont[0])
        for v in vals:
            ps.append(v if type(v) is tuple and v and v[0] == "pc" else ("b", v))
        return ("T", tuple(ps))

    def slice_pieces(self, E, st, cont, off, n):
        if cont[0] == "OA":
            return [("pc", "cp", self.inp, off, add(off, n))] if cont[2] == self.inp else None
        if cont[0] == "T" and off == 0:
            ln = self.lenof(E, st, cont)
            if sub(ln, n) == 0:
                return [q if q[0] == "pc" else q[1] for q in cont[1]]
        return None

    def text_pieces(self, E, st, p):
        from models import slice_pieces

        r = []
        for q in slice_pieces(E, st, p):
            r.append(q if type(q) is tuple and q and q[0] == "pc" else ("b", q))
        return norm_pieces(st, self.inp, r)

    def from_utf8(self, E, st, p):
        g = st.ghost
        if g is None:
            return None
        ps = self.text_pieces(E, st, p)
        if not any(q[0] == "pc" and q[1] in ("cp", "dec0", "dec1", "junk") or q[0] == "b" and not (type(q[1]) is int and q[1] < 128) for q in ps):
            return ("E", 0, (p,))
        k = ("utf8ok", tuple(ps))
        r = st.exp.get(k)
        if r is None:

            def bad(s):
                s.ghost = s.ghost._replace(bad=True)

            raise Fork([[("exp", k, 1)], [("exp", k, 0), ("call", bad)]])
        if r:
            return ("E", 0, (p,))
        return ("E", 1, (("O", self.utf8err, (N("utf8error"),)),)) if self.utf8err is not None else None

    def utf8_unchecked(self, E, st, c):
        if st.ghost is not None:
            ps = self.text_pieces(E, st, c.args[0])
            for q in ps:
                if q[0] == "pc" and q[1] == "cp":
                    if ("utf8ok", tuple(ps)) not in st.exp and ("utf8ok", (q,)) not in st.exp:
                        raise Viol("C04", "bytes of the input are used as a str without being checked", "unchecked-utf8")
        return c.args[0]

    # floats: (sign, log10 of the bound of the magnitude)
    def fsum(self, st, v):
        import math

        if v[0] == "fl":
            x = fval(v)
            if math.isnan(x):
                return (None, None)
            s = 1 if math.copysign(1.0, x) < 0 else 0
            return (s, 400.0 if math.isinf(x) else math.log10(abs(x)) if x else -400.0)
        e = v[1]
        if type(e) is tuple and e and e[0] in ("fs", "i2f", "sel", "Mul", "Div", "Neg", "abs", "Add"):
            r = None
            if e[0] == "fs":
                r = (e[1], e[2])
            elif e[0] == "i2f":
                lo, hi = Dom.range(st.dom, e[1])
                m = max(abs(lo), abs(hi), 1)
                r = (0 if lo >= 0 else 1 if hi < 0 else None, math.log10(min(m, 1 << 130)))
            elif e[0] == "sel":
                t = FTABS[e[1]]
                s = Dom.set_of(st.dom, e[2])
                lo = max(0, s[0][0]) if s else 0
                hi = min(len(t) - 1, s[-1][1]) if s else len(t) - 1
                xs = [self.fsum(st, x) for x in t[lo : hi + 1]]
                if xs and all(x[1] is not None for x in xs):
                    sg = {x[0] for x in xs}
                    r = (sg.pop() if len(sg) == 1 else None, max(x[1] for x in xs))
            elif e[0] == "Mul":
                a, b = self.fsum(st, e[1]), self.fsum(st, e[2])
                r = (None if a[0] is None or b[0] is None else a[0] ^ b[0], None if a[1] is None or b[1] is None else a[1] + b[1] + 0.001)
            elif e[0] == "Div":
                a, b = self.fsum(st, e[1]), self.fsum(st, e[2])
                lo = self.flow(st, e[2])
                r = (None if a[0] is None or b[0] is None else a[0] ^ b[0], None if a[1] is None or lo is None else a[1] - lo + 0.001)
            elif e[0] == "Neg":
                a = self.fsum(st, e[1])
                r = (None if a[0] is None else 1 - a[0], a[1])
            elif e[0] == "abs":
                r = (0, self.fsum(st, e[1])[1])
            elif e[0] == "Add":
                a, b = self.fsum(st, e[1]), self.fsum(st, e[2])
                r = (a[0] if a[0] == b[0] else None, None if a[1] is None or b[1] is None else max(a[1], b[1]) + 0.302)
            if r is not None:
                if (r[1] is None or r[1] > 308.25) and st.exp.get(("fclass", v)) == "fin":
                    r = (r[0], 308.25)
                return r
        return (None, 308.25 if st.exp.get(("fclass", v)) == "fin" else None)

    def flow(self, st, v):
        """log10 of a lower bound of the magnitude"""
        import math

        if v[0] == "fl":
            x = fval(v)
            return math.log10(abs(x)) if x and not math.isinf(x) and not math.isnan(x) else None
        e = v[1]
        if type(e) is tuple and e and e[0] == "sel":
            t = FTABS[e[1]]
            s = Dom.set_of(st.dom, e[2])
            xs = [self.flow(st, x) for x in t[max(0, s[0][0]) : min(len(t) - 1, s[-1][1]) + 1]]
            return None if None in xs or not xs else min(xs)
        return None

    def fclass(self, E, st, c):
        v = c.args[0]
        n = c.name.rsplit("::", 1)[-1]
        if v[0] == "U":
            raise UB("use of an uninitialised float")
        s = self.fsum(st, v)
        if s[1] is not None and s[1] <= 308.25:
            k = "fin"
        elif v[0] == "fl":
            x = fval(v)
            k = "nan" if x != x else "inf"
        else:
            key = ("fclass", v)
            k = st.exp.get(key)
            if k is None:
                opts = ["fin", "inf"] + (["nan"] if s[1] is None and s[0] is None else [])
                raise Fork([[("exp", key, o)] for o in opts])
        return 1 if k == {"is_infinite": "inf", "is_finite": "fin", "is_nan": "nan"}[n] else 0

    # ------------------------------------------------------------ the driver
    def drv_new(self, E, st, c):
        d = E.P.rep(c.destty)
        E.P.opq.add(d)
        self.setslot(E, st, c)
        return ("O", d, (N("driver"),))

    def setslot(self, E, st, c):
        for a, ty in zip(c.args, c.argtys):
            x = E.T[E.P.rep(ty)]
            if x["k"] in ("ref", "ptr") and a[0] == "R":
                y = E.T[E.P.rep(x["e"])]
                if y["k"] == "adt" and y["path"].endswith("option::Option"):
                    tok = (N("slot"),)
                    E.store(st, a[1], a[2], E.mk(x["e"], tok))
                    if st.ghost is not None:
                        st.ghost = st.ghost._replace(slot=tok)

    def on_opaque(self, E, st, call):
        self.setslot(E, st, call)
        return E.fresh(st, call.destty, call.name)

    def drv_emit(self, E, st, c):
        g = st.ghost
        if g is None:
            raise Unknown("emit outside of the reader")
        if g.derr:
            pass
        ev = self.event_of(E, st, c.args[1], c.argtys[1])
        k = choose(st, 2)
        st.ev = (st.ev, "emit %s -> %s" % (show_event(ev), ["Ok", "Err"][k]))
        self.emits += 1
        st.aux = (None, {})
        if not g.derr:
            self.check_event(E, st, ev)
        if k == 1:
            e = (N("err"),)
            st.ghost = st.ghost._replace(derr=True)
            return enumv(E, c.destty, "Err", E.mk(vfield(E, c.destty, "Err"), e))
        return enumv(E, c.destty, "Ok", UNIT)

    def event_of(self, E, st, v, ty):
        """('Null',) ('Bool', b) ('Str', pieces) ('Char', c) ('U64', n) ('I64', n) ('F64', f) ('MapStart',) ..."""
        t = E.P.rep(ty)
        x = E.T[t]
        if x["k"] == "bool":
            return ("Bool", v)
        if x["k"] in ("int", "uint"):
            return ("U64" if x["k"] == "uint" else "I64", v)
        if x["k"] == "float":
            return ("F64", v)
        if x["k"] == "char":
            return ("Char", v)
        if x["k"] == "tuple" and not x["f"]:
            return ("Null",)
        if x["k"] == "ref":
            y = E.T[E.P.rep(x["e"])]
            if y["k"] == "str":
                return ("Str", self.text_pieces(E, st, v))
            return ("other",)
        if x["k"] == "adt" and x["path"].endswith("string::String"):
            from models import deref_str

            return ("Str", self.text_pieces(E, st, deref_str(E, st, v)))
        if x["k"] == "adt" and x["ak"] == "enum":
            if v[0] == "O":
                E.variant_of(st, v)
                v = E.expand(st, v)
            name = x["v"][v[1]][0]
            p = x["path"]
            if p.endswith("borrow::Cow"):
                if name == "Borrowed":
                    return ("Str", self.text_pieces(E, st, v[2][0]))
                from models import deref_str

                return ("Str", self.text_pieces(E, st, deref_str(E, st, v[2][0])))
            if name == "Atom" and len(v[2]) == 1:
                return self.event_of(E, st, v[2][0], x["v"][v[1]][2][0][1])
            if not v[2]:
                return (name,)
            r = self.event_of(E, st, v[2][0], x["v"][v[1]][2][0][1])
            if name == "Str" and r[0] == "Str":
                return r
            return (name,) + tuple(r[1:])
        return ("other",)

    # ------------------------------------------------------------ the recogniser
    def cell(self, k):
        at = self.inp + (("y", ((PA, 1),), k),)
        ATOMTY.setdefault(at, (0, 255))
        return ("y", ((at, 1),), 0)

    def left(self, k):
        """input length minus the position"""
        return ("y", tuple(sorted((((PA), -1), (self.inlen, 1)), key=lambda t: repr(t[0]))), -k)

    def exists(self, st, k):
        """is there a cell k? True, False, None"""
        lo, hi = Dom.range(st.dom, self.left(k))
        return True if lo >= 1 else False if hi <= 0 else None

    def which(self, st, k, *sets):
        """the index of the set the cell is in (the last set is everything else); forks"""
        c = self.cell(k)
        d = Dom.set_of(st.dom, c)
        opts = []
        rest = ((0, 255),)
        for i, s in enumerate(sets):
            iv = ivs_of(s)
            rest = iv_inter(rest, iv_compl(iv))
            if iv_inter(d, iv):
                opts.append((i, iv))
        if iv_inter(d, rest):
            opts.append((len(sets), rest))
        if len(opts) == 1:
            return opts[0][0]
        if not opts:
            raise Stop("empty")
        raise Fork([[("dom", c, iv)] for _, iv in opts])

    def done_value(self, g):
        return g._replace(mode="after", lex=("ws",))

    def die(self, g, why):
        return g._replace(dead="it is not JSON", lex=("ws",), mode="after", pend=())

    def close(self, g, kind, ev, st):
        if g.stk == ("ctx",):
            self.unhide(st)
        if not g.stk:
            return self.die(g, "an end without a start")
        if g.stk[-1] == "hid":
            raise Unknown("the recogniser pops a hidden container")
        return self.done_value(g._replace(stk=g.stk[:-1], pend=g.pend + ((ev,),)))

    def finish_num(self, g):
        """the number is followed by something which does not continue it"""
        _, phase, neg, val, ex = g.lex
        if phase not in ("zero", "int", "frac", "exp"):
            return self.die(g, "incomplete number")
        return self.done_value(g._replace(pend=g.pend + (("num", neg, val if phase in ("zero", "int") else ("flt", val), ex),)))

    def numnext(self, st, g, k):
        """does the next cell continue the number? True/False (may fork), for an existing cell"""
        phase = g.lex[1]
        return self.which(st, k, NUMCONT[phase]) == 0

    def step(self, E, st):
        """consumes the (existing) next cell"""
        g = st.ghost
        if g.dead:
            st.ghost = g._replace(pos=g.pos + 1)
            return
        k = g.pos
        lex = g.lex
        c = self.cell(k)
        cs = Dom.set_of(st.dom, c)
        if cs and len(cs) == 1 and cs[0][0] == cs[0][1]:
            c = cs[0][0]
        n = g._replace(pos=k + 1)
        if lex[0] == "num":
            if not self.numnext(st, g, k):
                st.ghost = self.finish_num(g)
                return
            _, phase, neg, val, ex = lex
            if phase == "sign":
                w = self.which(st, k, (48,))
                n = n._replace(lex=("num", "zero", neg, 0, ex) if w == 0 else ("num", "int", neg, add(c, -48), ex))
            elif phase in ("zero", "int"):
                w = self.which(st, k, DIG, (46,))
                if w == 0:
                    n = n._replace(lex=("num", "int", neg, self.digit(E, st, val, c), ex))
                else:
                    n = n._replace(lex=("num", "dot" if w == 1 else "e", neg, val, ex))
            elif phase in ("dot", "frac"):
                w = self.which(st, k, DIG)
                n = n._replace(lex=("num", "frac" if w == 0 else "e", neg, val, ex))
            elif phase == "e":
                w = self.which(st, k, DIG, (43,))
                if w == 0:
                    n = n._replace(lex=("num", "exp", neg, val, (0, add(c, -48))))
                else:
                    n = n._replace(lex=("num", "esign", neg, val, (0 if w == 1 else 1, 0)))
            elif phase == "esign":
                n = n._replace(lex=("num", "exp", neg, val, (ex[0], add(c, -48))))
            else:
                n = n._replace(lex=("num", "exp", neg, val, (ex[0], self.digit(E, st, ex[1], c))))
            st.ghost = n
            return
        if lex[0] == "lit":
            ch = lex[1][0]
            if self.which(st, k, (ch,)) == 0:
                st.ghost = n._replace(lex=("lit", lex[1][1:], lex[2])) if len(lex[1]) > 1 else self.done_value(n._replace(pend=n.pend + (lex[2],)))
            else:
                st.ghost = self.die(n, "misspelled literal")
            return
        if lex[0] == "str":
            st.ghost = self.step_str(E, st, n, lex, k, c)
            return
        # between tokens
        mode = g.mode
        if mode in ("val", "valc"):
            w = self.which(st, k, WS, (34,), (45,), (48,), DIG[1:], (123,), (91,), (116,), (102,), (110,), (93,))
            if w == 0:
                pass
            elif w == 1:
                n = n._replace(lex=("str", "raw", False, (), self.posterm(k + 1), None))
            elif w == 2:
                n = n._replace(lex=("num", "sign", True, 0, None))
            elif w == 3:
                n = n._replace(lex=("num", "zero", False, 0, None))
            elif w == 4:
                n = n._replace(lex=("num", "int", False, add(c, -48), None))
            elif w == 5:
                n = n._replace(stk=n.stk + ("o",), pend=n.pend + (("MapStart",),), mode="keyc")
            elif w == 6:
                n = n._replace(stk=n.stk + ("a",), pend=n.pend + (("SeqStart",),), mode="valc")
            elif w in (7, 8, 9):
                n = n._replace(lex=("lit",) + ((b"rue", ("Bool", 1)), (b"alse", ("Bool", 0)), (b"ull", ("Null",)))[w - 7])
            elif w == 10 and mode == "valc":
                n = self.close(n, "a", "SeqEnd", st)
            else:
                n = self.die(n, "a value is expected")
        elif mode in ("key", "keyc"):
            w = self.which(st, k, WS, (34,), (125,))
            if w == 0:
                pass
            elif w == 1:
                n = n._replace(lex=("str", "raw", True, (), self.posterm(k + 1), None))
            elif w == 2 and mode == "keyc":
                n = self.close(n, "o", "MapEnd", st)
            else:
                n = self.die(n, "a key is expected")
        elif mode == "colon":
            w = self.which(st, k, WS, (58,))
            if w == 1:
                n = n._replace(mode="val")
            elif w == 2:
                n = self.die(n, "a colon is expected")
        else:
            if n.stk == ("ctx",):
                self.unhide(st)
            top = n.stk[-1] if n.stk else None
            if top == "hid":
                raise Unknown("the recogniser looks at a hidden container")
            w = self.which(st, k, WS, (44,), (93,), (125,))
            if w == 0:
                pass
            elif w == 1 and top:
                n = n._replace(mode="val" if top == "a" else "key")
            elif w == 2 and top == "a":
                n = self.close(n, "a", "SeqEnd", st)
            elif w == 3 and top == "o":
                n = self.close(n, "o", "MapEnd", st)
            else:
                n = self.die(n, "a comma or the end of the container is expected" if top else "something is left after the value")
        st.ghost = n

    def posterm(self, k):
        return ("y", ((PA, 1),), k)

    def digit(self, E, st, val, c):
        if val == "big":
            return val
        v = add(scale_(val, 10), add(c, -48))
        if E.decide(st, v, ((0, U64),)):
            return v
        return "big"

    def step_str(self, E, st, n, lex, k, c):
        _, phase, iskey, pieces, seg, hx = lex
        here = self.posterm(k)
        nxt = self.posterm(k + 1)
        if phase == "raw":
            w = self.which(st, k, (34,), (92,), tuple(range(32)))
            if w == 3:
                return n
            if w == 2:
                return self.die(n, "control character in a string")
            ps = norm_pieces(st, self.inp, list(pieces) + [("pc", "cp", self.inp, seg, here)])
            if w == 1:
                return n._replace(lex=("str", "esc", iskey, ps, None, None))
            n = n._replace(pend=n.pend + (("Str", ps),), lex=("ws",))
            return n._replace(mode="colon") if iskey else self.done_value(n)
        if phase == "esc":
            simple = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
            ks = sorted(simple)
            w = self.which(st, k, *([(x,) for x in ks] + [(117,)]))
            if w < len(ks):
                return n._replace(lex=("str", "raw", iskey, pieces + (("b", simple[ks[w]]),), nxt, None))
            if w == len(ks):
                return n._replace(lex=("str", "hex", iskey, pieces, None, (0, 0, None)))
            return self.die(n, "undefined escape")
        if phase == "hex":
            cnt, val, hi = hx
            w = self.which(st, k, DIG, tuple(range(65, 71)), tuple(range(97, 103)))
            if w == 3:
                return self.die(n, "not a hex digit")
            cs = Dom.set_of(st.dom, c)
            if cs and len(cs) == 1 and cs[0][0] == cs[0][1]:
                c = cs[0][0]
            val = add(scale_(val, 16), add(c, -(48, 55, 87)[w]))
            cnt += 1
            if cnt < 4:
                return n._replace(lex=("str", "hex", iskey, pieces, None, (cnt, val, hi)))
            if hi is None:
                if E.decide(st, val, ((0xDC00, 0xDFFF),)):
                    return self.die(n, "unpaired surrogate")
                if E.decide(st, val, ((0xD800, 0xDBFF),)):
                    return n._replace(lex=("str", "bs2", iskey, pieces, None, (0, 0, val)))
                return n._replace(lex=("str", "raw", iskey, pieces + (("pc", "chr", val),), nxt, None))
            if not E.decide(st, val, ((0xDC00, 0xDFFF),)):
                return self.die(n, "unpaired surrogate")
            return n._replace(lex=("str", "raw", iskey, pieces + (("pc", "chr2", hi, val),), nxt, None))
        want, nextphase = {"bs2": (92, "u2"), "u2": (117, "hex")}[phase]
        if self.which(st, k, (want,)) != 0:
            return self.die(n, "unpaired surrogate")
        return n._replace(lex=("str", nextphase, iskey, pieces, None, hx))

    def settle(self, E, st, need=None):
        """reads ahead over cells which are known to exist; stops when `need` events are pending"""
        for _ in range(64):
            g = st.ghost
            if g.dead:
                return
            if need is not None and len(g.pend) >= need:
                return
            ex = self.exists(st, g.pos)
            if ex is False and g.lex[0] == "num":
                st.ghost = self.finish_num(g)
                continue
            if not ex:
                return
            if g.lex[0] == "num" and need is None:
                # do not decide what nobody has looked at
                pass
            self.step(E, st)
        raise Unknown("the recogniser reads too far ahead")

    # ------------------------------------------------------------ obligations
    def check_event(self, E, st, ev):
        self.settle(E, st, 1)
        g = st.ghost
        self.rep.inc("events checked")
        if not g.pend:
            if g.dead:
                # after malformed input; the reader must still fail, which is checked at its return
                self.dead_event(st, g, ev)
                return
            raise Viol("C06", "the event %s is delivered where no value is complete (%s)" % (show_event(ev), show_g(g)), "event-early:" + ev[0])
        want = g.pend[0]
        st.ghost = g._replace(pend=g.pend[1:])
        if want[0] == "num":
            self.check_number(E, st, ev, want)
            return
        if want[0] != ev[0]:
            raise Viol("C06", "the event %s is delivered for %s" % (show_event(ev), show_event(want)), "event:%s:%s" % (want[0], ev[0]))
        if want[0] == "Bool" and not (is_num(ev[1]) and sub(ev[1], want[1]) == 0):
            raise Viol("C06", "a boolean is delivered with another value", "bool")
        if want[0] == "Str":
            if not same_pieces(st, self.inp, ev[1], want[1]):
                if any(q[0] == "pc" and q[1] == "junk" for q in ev[1] + want[1]):
                    raise Unknown("the text of a string is not known")
                raise Viol("C06", "a string is delivered as %s although it denotes %s" % (show_pieces(ev[1]), show_pieces(want[1])), "string")

    def dead_event(self, st, g, ev):
        pass

    def check_number(self, E, st, ev, want):
        _, neg, val, ex = want
        lo, hi = (0, 0)
        if ev[0] in ("U64", "I64"):
            if type(val) is tuple and val and val[0] == "flt":
                raise Viol("C06", "a number with a fraction or exponent is delivered as an integer", "float-as-int")
            if val == "big":
                raise Viol("C06", "an integer which does not fit 64 bits is delivered as an integer", "big-as-int")
            d = sub(ev[1], scale_(val, -1) if neg else val)
            if d != 0 and Dom.range(st.dom, d) != (0, 0):
                if any_w(ev[1]):
                    raise Unknown("the value of an integer is not known")
                raise Viol("C06", "an integer is delivered with another value", "int-value")
            lo, hi = Dom.range(st.dom, ev[1])
            r = (0, U64) if ev[0] == "U64" else (-(1 << 63), (1 << 63) - 1)
            if lo < r[0] or hi > r[1]:
                raise Viol("C06", "an integer is delivered with a wrapped value", "int-wrap")
            return
        if ev[0] != "F64":
            raise Viol("C06", "a number is delivered as %s" % show_event(ev), "num-kind")
        if is_num(val):
            lo, hi = Dom.range(st.dom, val)
            if neg and lo <= 1 << 63 or not neg:
                raise Viol("C06", "an integer which fits 64 bits is delivered as a float", "int-as-float")
        s = self.fsum(st, ev[1])
        if s[0] is None:
            if isfloat(ev[1]) and ev[1][0] == "fy":
                raise Unknown("the sign of a float is not known")
        elif s[0] != (1 if neg else 0):
            raise Viol("C06", "a %s number is delivered as a %s float" % (("positive", "negative")[neg], ("positive", "negative")[s[0]]), "float-sign")
        if s[1] is None or s[1] > 308.2548:
            if s[1] is None and s[0] is None:
                raise Unknown("the magnitude of a float is not known")
            raise Viol("C06", "a number which is out of range is delivered as infinity", "float-inf")

    def accepted(self, g):
        return g.lex == ("ws",) and g.mode == "after" and not g.stk and not g.dead

    def check_return(self, E, o, rty):
        """obligations at the return of the reader; may fork"""
        st = o.st
        g = st.ghost
        v = o.val
        okk = v[1] == vindex(E, rty, "Ok")
        if okk:
            if g.derr:
                raise Viol("C16", "reading succeeds although the driver returned an error", "driver-error-lost")
            self.settle(E, st)
            g = st.ghost
            if g.dead:
                raise Viol("C05", "a document is accepted although %s" % g.dead, "accepts:" + g.dead)
            if self.exists(st, g.pos) is not False:
                raise Viol("C05", "a document is accepted without looking at all of its bytes (%s)" % show_g(g), "accepts-rest")
            if not self.accepted(g):
                raise Viol("C05", "an incomplete document is accepted (%s)" % show_g(g), "accepts-incomplete:" + g.mode + ":" + g.lex[0])
            if g.pend:
                raise Viol("C06", "reading succeeds but %s was never delivered" % ", ".join(show_event(p) for p in g.pend), "not-delivered:" + g.pend[0][0])
            if g.bad:
                raise Viol("C05", "a document with invalid UTF-8 is accepted", "accepts-utf8")
            if g.slot is not None and not (v[2][0][0] == "O" and prefix_of(g.slot, v[2][0][2])):
                raise Viol("C06", "the value returned is not the one which was read", "other-value")
            return
        if g.derr or g.bad:
            return
        before = g
        self.settle(E, st)
        g = st.ghost
        if g.dead:
            return
        for p in g.pend:
            if p[0] == "num" and self.may_overflow(st, p[2], p[3]):
                return
        if g.lex[0] == "num" and self.may_overflow(st, g.lex[3] if g.lex[1] in ("zero", "int", "sign") else ("flt", g.lex[3]), g.lex[4]):
            return
        ex = self.exists(st, g.pos)
        if ex is False:
            if not self.accepted(g):
                return
            sv = st.exp.get(g.slot) if g.slot is not None else None
            if sv == 0:
                return
        raise Viol("C05", "a document is rejected although it can still be valid (%s)" % show_g(g), "rejects:%s:%s" % (g.mode if g.lex[0] == "ws" else g.lex[0], g.lex[1] if len(g.lex) > 1 and type(g.lex[1]) is str else ""))

    def may_overflow(self, st, val, ex):
        """can the number be out of range?"""
        m = val[1] if type(val) is tuple and val and val[0] == "flt" else val
        if m == "big":
            return True
        if ex is None or ex[0] == 1:
            return False
        if ex[1] == "big":
            return True
        return Dom.range(st.dom, ex[1])[1] >= 289

    # ------------------------------------------------------------ generalisation at loop heads
    def live_allocs(self, E, st):
        """the live locals of every frame and everything reachable from them; drops the rest"""
        P = E.P
        from engine import succs

        roots = []
        heap = st.heap
        nf = len(st.frames)
        order = []
        hc = st.ghost.ctx[1] if st.ghost is not None and st.ghost.ctx else -1
        for fi, fr in enumerate(st.frames):
            if fr[0] == "N":
                if fr[1] is hidden_frame:
                    continue
                raise Unknown("a loop inside of a library function")
            lv = P.live(fr[0])
            if fi == nf - 1:
                ls = lv[fr[2]]
            else:
                t = E.I[fr[0]]["blocks"][fr[2]][1]
                ls = set()
                for s in succs(t):
                    ls.update(lv[s])
                if t[0] == "call":
                    if len(t[3]) > 1:
                        ls.add(t[3][0])
                elif t[0] == "drop":
                    ls.add(t[1][0])
                ls = sorted(ls)
            for n in ls:
                a = (fr[1], n)
                if a in heap:
                    order.append((fi, n, a))
            order.append((fi, None, fr[4]))
        seen = {}
        work = []

        def walk(v):
            if type(v) is tuple:
                if v and v[0] == "R" and len(v) == 4:
                    push(v[1])
                elif v and v[0] in ("V", "M") and len(v) == 2:
                    push(v[1])
                for e in v:
                    if type(e) is tuple:
                        walk(e)

        def push(a):
            if a not in seen and a in heap:
                seen[a] = None
                work.append(a)

        if hc >= 0:
            for a in st.ghost.ctx[2]:
                push(a)
        for fi, n, a in order:
            if n is None:
                if a is not None:
                    walk(a)
                    if type(a) is tuple and a and type(a[0]) is tuple and a[0] in heap:
                        push(a[0])
            else:
                push(a)
        while work:
            a = work.pop(0)
            walk(heap[a])
        st.heap = {a: heap[a] for a in heap if a in seen or (type(a) is tuple and a and a[0] in ("om",))}
        return order

    def widen(self, E, st):
        if st.ghost is None:
            return
        self.widening = True
        try:
            self.widen_(E, st)
        finally:
            self.widening = False

    def widen_(self, E, st):
        g = st.ghost
        order = self.live_allocs(E, st)
        st.aux = st.aux or (None, {})
        # how far has the reader come?
        K = [0]

        def look(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "y" and len(v) == 3:
                ts = v[1]
                if len(ts) <= 2:
                    for at, co in ts:
                        if at == PA:
                            if len(ts) == 1 and co == 1:
                                K[0] = max(K[0], v[2])
                            elif len(ts) == 2 and co == -1 and any(a == self.inlen and c == 1 for a, c in ts):
                                K[0] = max(K[0], -v[2])
                return
            if v[0] == "fy":
                return
            for e in v:
                if type(e) is tuple:
                    look(e)

        for v in st.heap.values():
            look(v)
        K = K[0]
        consumed = K >= 1 and self.exists(st, 0) is True
        while True:
            g = st.ghost
            if g.pos >= K:
                break
            ex = self.exists(st, g.pos)
            if ex is None:
                if g.dead:
                    st.ghost = g._replace(pos=K)
                    break
                E.decide(st, self.left(g.pos), ((1, INF),))
                continue
            if ex is False:
                if g.lex[0] == "num" and not g.dead:
                    st.ghost = self.finish_num(g)
                st.ghost = st.ghost._replace(pos=K)
                break
            self.step(E, st)
        if not (st.ghost.stk and st.ghost.stk[0] == "ctx"):
            self.pair_stacks(E, st)
        self.edge_in = self.still(E, st, order, consumed)
        self.rewrite(E, st, K, order)
        self.hide(E, st)

    # ---- the frames below the one at a loop head
    def hide(self, E, st):
        """the callers of the function at whose loop head we are are put aside: what is only reachable
        from them is remembered as one of the contexts of this call site, and brought back when
        the function returns"""
        g = st.ghost
        cut = len(st.frames) - 2
        if cut < 0 or cut == 0 and g.ctx:
            return
        order = self.live_allocs(E, st)
        heap = st.heap
        inner = {}
        work = []

        def push(a):
            if a not in inner and a in heap:
                inner[a] = None
                work.append(a)

        def walk(v):
            if type(v) is tuple:
                if v and v[0] == "R" and len(v) == 4:
                    push(v[1])
                elif v and v[0] in ("V", "M") and len(v) == 2:
                    push(v[1])
                for e in v:
                    if type(e) is tuple:
                        walk(e)

        top = cut + 1
        for fi, n, a in order:
            if fi == top:
                if n is not None:
                    push(a)
        while work:
            walk(heap[work.pop()])
        outer = {a: v for a, v in heap.items() if a not in inner and not (type(a) is tuple and a and a[0] == "om")}
        syms = set()
        collect(tuple(outer.values()), syms, True)
        for at in syms:
            if not (at in (self.inlen, NH) or len(at) == 1 and type(at[0]) is N and at[0].label == "w"):
                return
        gsyms = set()
        collect(tuple(g), gsyms, True)
        collect(tuple(heap[a] for a in inner), gsyms, True)
        ws = {at for at in syms if at not in (self.inlen, NH)}
        if ws & gsyms:
            return
        dom = {}
        for f, d in st.dom.items():
            if any(at in ws for at, _ in f):
                if len(f) > 1:
                    return
                dom[f] = d
        bufs = set()
        for v in outer.values():
            find_bufs(v, bufs)
        lists = bool(g.stk) and any(type(outer.get(b)) is tuple and outer[b][0] in ("A", "HA") and b in bufs for b in outer)
        if g.stk and not lists:
            # the stack is somewhere else
            if any(type(v) is tuple and v[0] == "HA" for v in st.heap.values()) or g.stk[0] == "hid":
                pass
        stk = None
        if g.stk and g.stk[0] != "ctx" and lists:
            stk = g.stk
        # canonical names
        used = set()
        names_in(tuple((a, heap[a]) for a in inner), used)
        names_in(tuple(g._replace(ctx=g.ctx[2] if g.ctx else ())), used)
        names_in(tuple(tuple(fr) for fr in st.frames), used)
        order2 = sorted(outer, key=lambda a: (0, [i for i, fr in enumerate(st.frames) if fr[1] is a[0]], a[1]) if type(a) is tuple and len(a) == 2 and type(a[0]) is N else (1, [], 0))
        ren = {}
        cnt = [0]

        def rn(v):
            if type(v) is tuple:
                return tuple([rn(e) if type(e) is tuple or type(e) is N else e for e in v])
            if type(v) is N:
                if v in used or v in self.fixed:
                    return v
                r = ren.get(v)
                if r is None:
                    while True:
                        r = self.ctxnames.setdefault((cut, v.label, cnt[0]), None)
                        if r is None:
                            r = self.ctxnames[(cut, v.label, cnt[0])] = N(v.label)
                        cnt[0] += 1
                        if r not in used:
                            break
                    ren[v] = r
                return r
            return v

        # objects are visited in the order in which they are reached from the locals
        todo = [a for a in order2 if type(a) is tuple and len(a) == 2 and type(a[0]) is N]
        done = {}
        queue = list(todo)
        while queue:
            a = queue.pop(0)
            if a in done:
                continue
            done[a] = None
            out = set()
            refs = []
            find_refs(outer[a], refs)
            queue.extend(r for r in refs if r in outer and r not in done)
        pins = []
        for a in outer:
            find_refs(outer[a], pins)
        pins = {a for a in pins if a in inner} | {a for fi, n, a in order if fi < top and n is not None and a in inner}
        pins |= set(g.ctx[2] if g.ctx else ())
        pins = tuple(sorted(pins, key=repr))
        saved = tuple((rn(a), rn(outer[a])) for a in done)
        frames = tuple(tuple(rn(x) for x in fr) if fr[0] != "N" else tuple(fr) for fr in st.frames[: cut + 1])
        tf = st.frames[cut + 1]
        frames = (frames, (rn(tf[4]), tf[5]))
        lex = g.lex[:3]
        if g.lex[0] == "str":
            lex = g.lex[:3] + (g.lex[5] is not None and g.lex[5][2] is not None,)
        key = (tf[0], g.mode, lex, g.dead, g.derr, stk is None)
        sdom = tuple(sorted(((rn(f), d) for f, d in dom.items()), key=repr))
        for a in list(outer):
            del heap[a]
        st.heap = heap
        st.dom = {f: d for f, d in st.dom.items() if not any(at in ws for at, _ in f)}
        st.ghost = g._replace(ctx=(key, 0, pins), stk=("ctx",) if stk is not None else g.stk)
        tf = tf[:]
        tf[4] = tf[5] = None
        st.frames = [["N", hidden_frame, (), None], tf] + st.frames[cut + 2 :]
        self.add_ctx((key, 0, pins), (saved, sdom, stk, g.ctx, frames))

    def add_ctx(self, key, c):
        cs = self.ctxs.setdefault(key, {})
        if c in cs:
            return
        cs[c] = None
        for s in self.cwait.get(key, ()):
            s2 = s.copy()
            self.bring_ctx(c)(s2)
            self.E.work.append(s2)

    def bring_ctx(self, c):
        saved, sdom, stk, outer, (frames, (dest, target)) = c

        def f(s):
            cur = {fr[1] for fr in s.frames if fr[0] != "N"}
            if any(fr[1] in cur for fr in frames if fr[0] != "N"):
                raise Unknown("recursion in the reader")
            tf = s.frames[1][:]
            tf[4] = dest
            tf[5] = target
            s.frames = [list(fr) for fr in frames] + [tf] + s.frames[2:]
            for a, v in saved:
                s.heap[a] = v
            for fm, d in sdom:
                s.dom[fm] = d
                for at, _ in fm:
                    ATOMTY.setdefault(at, (-INF, INF))
            g = s.ghost
            s.ghost = g._replace(ctx=outer, stk=stk + g.stk[1:] if stk is not None else g.stk)

        return f

    def unhide(self, st):
        key = st.ghost.ctx
        s = st.copy()
        if self.widening:
            s.frames[-1][3] = -1
        self.cwait.setdefault(key, []).append(s)
        opts = [[("call", self.bring_ctx(c))] for c in self.ctxs.get(key, ())]
        if not opts:
            raise Stop("no context yet")
        raise Fork(opts)

    def on_ret(self, E, st):
        g = st.ghost
        if g is not None and g.ctx and len(st.frames) == 2:
            F = st.frames[-1][1]
            rest = [("R", a, (), None) for a in st.heap if not (type(a) is tuple and len(a) == 2 and a[0] == F)]
            k = (g.ctx, E.canon(st, (st.heap.get((F, 0)),) + tuple(rest)))
            if k in self.exits:
                raise Stop("seen")
            self.exits.add(k)
            self.unhide(st)

    # ---- container stacks
    def pair_stacks(self, E, st):
        g = st.ghost
        hid = 1 if g.stk and g.stk[0] == "hid" else 0
        vis = g.stk[hid:]
        lists = []
        for a, v in st.heap.items():
            if type(a) is tuple and a[0] == "om" or type(v) is not tuple or v[0] not in ("A", "HA"):
                continue
            if v[0] == "HA" or (v[1] and all(type(x) is tuple and x[0] in ("E", "S", "O") for x in v[1])):
                lists.append(a)
        # the buffers of vectors
        bufs = set()

        def find(v):
            if type(v) is tuple:
                if v and v[0] == "V" and len(v) == 2:
                    bufs.add(v[1])
                for e in v:
                    if type(e) is tuple:
                        find(e)

        for v in st.heap.values():
            find(v)
        lists = [a for a in lists if a in bufs]
        els = {a: (st.heap[a][2] if st.heap[a][0] == "HA" else st.heap[a][1]) for a in lists}
        if g.dead and lists:
            # the grammar no longer says anything: only the reader's lists count
            hid = 1 if any(st.heap[a][0] == "HA" for a in lists) else 0
            vis = ("?",) * min(len(e) for e in els.values())
            g = g._replace(stk=(("hid",) if hid else ()) + vis)
            st.ghost = g
        for a in lists:
            if (st.heap[a][0] == "HA") != bool(hid):
                raise Unknown("stacks of different depths")
        n = min([len(vis)] + [len(e) for e in els.values()])
        if hid and n < 2:
            # bring back hidden levels
            key = tuple(1 for _ in lists)
            opts = []
            for t in sorted({(t[0], "?") for t in self.tuples} if g.dead else self.tuples, key=repr):
                if len(t[0]) == len(lists) and (t[1] == "?") == bool(g.dead):
                    for more in (True, False):
                        opts.append([("call", self.bringer(lists, t, more))])
            self.waiting.append((st.copy(), tuple(lists)))
            if not opts:
                raise Stop("nothing is hidden yet")
            raise Fork(opts)
        was = {a: st.heap[a][0] for a in lists}
        cut = 0
        while n > 2:
            cut += 1
            t = (tuple(els[a][0] for a in lists), vis[0])
            if any(has_n(x) for x in t[0]):
                raise Unknown("the elements of a stack are not plain")
            self.add_tuple(t)
            els = {a: e[1:] for a, e in els.items()}
            vis = vis[1:]
            hid = 1
            n -= 1
        if hid:
            for a in lists:
                st.heap[a] = ("HA", HID, tuple(els[a]))
            if cut:
                shift_stack(st, lists, -cut, was)
            st.ghost = g._replace(stk=("hid",) + tuple(vis))
        self.nlists = len(lists)

    def bringer(self, lists, t, more):
        def f(s):
            for a, e in zip(lists, t[0]):
                v = s.heap[a]
                s.heap[a] = ("HA", HID, (e,) + v[2]) if more else ("A", (e,) + v[2])
            shift_stack(s, lists, 1, None if more else 1)
            g = s.ghost
            s.ghost = g._replace(stk=(("hid",) if more else ()) + (t[1],) + g.stk[1:])

        return f

    def add_tuple(self, t):
        if t in self.tuples:
            return
        self.tuples.add(t)
        for s, lists in self.waiting:
            dead = bool(s.ghost.dead)
            if dead:
                t = (t[0], "?")
            elif t[1] == "?":
                continue
            if len(lists) == len(t[0]):
                for more in (True, False):
                    s2 = s.copy()
                    s2.frames[-1][3] = -1
                    self.bringer(lists, t, more)(s2)
                    self.E.work.append(s2)

    # ---- progress
    def leaves(self, E, st, order):
        """everything the running functions can see, by path"""
        r = {}
        sig = tuple(fr[0] if fr[0] != "N" else ("N", st.ghost.ctx and st.ghost.ctx[0]) for fr in st.frames)
        heap = st.heap

        def walk(v, path, seen):
            if type(v) is not tuple or not v:
                r[path] = v
                return
            k = v[0]
            if k in ("S", "A"):
                if len(v[1]) > 64:
                    r[path] = v
                    return
                for i, e in enumerate(v[1]):
                    walk(e, path + (i,), seen)
            elif k == "E":
                r[path] = v[1]
                for i, e in enumerate(v[2]):
                    walk(e, path + (v[1], i), seen)
            elif k == "HA":
                r[path + ("n",)] = add(v[1], len(v[2]))
                for i, e in enumerate(v[2]):
                    walk(e, path + (i,), seen)
            elif k == "V":
                if v[1] in heap and v[1] not in seen:
                    walk(heap[v[1]], path + ("*",), seen | {v[1]})
            elif k == "R":
                for i, e in enumerate(v[2]):
                    x = e if type(e) is int else pidx_of(e)
                    if x is not None and is_num(x):
                        r[path + ("p", i)] = x
                if v[3] is not None and v[3][0] == "len":
                    r[path + ("m",)] = v[3][1]
                if v[1] in heap and v[1] not in seen:
                    walk(heap[v[1]], path + ("*",), seen | {v[1]})
            else:
                r[path] = v

        for fi, n, a in order:
            if n is not None and a in heap:
                walk(heap[a], (fi, n), frozenset())
        return sig, r

    def still(self, E, st, order, consumed):
        """is nothing at all different from the last loop head?"""
        last, old = st.aux
        if last is None or consumed:
            return last, False
        sig, new = self.leaves(E, st, order)
        osig, ol = old
        common = 0
        while common < min(len(sig), len(osig)) and sig[common] == osig[common]:
            common += 1
        for p, v in new.items():
            o = ol.get(p, ol) if p[0] < common else ol
            if o is ol:
                # only seen here: the same each time if it is a constant
                if type(v) is int or type(v) is str or names_in_set(v) <= self.fixed | {PA, NH, self.inlen}:
                    continue
                return last, False
            if o == v:
                continue
            if is_num(v) and is_num(o) and Dom.range(st.dom, sub(v, o)) == (0, 0):
                continue
            return last, False
        return last, True

    # ---- renaming
    def rewrite(self, E, st, K, order):
        self.hexed = None
        g = st.ghost
        dom = st.dom
        inp = self.inp
        seg = {}  # offset (negative) -> S atom
        wmap = {}
        newdom = {}
        fmap = []
        keepat = {}

        def satom(j):
            if j not in seg:
                a = (N("S"),)
                ATOMTY[a] = (0, MAXLEN)
                seg[j] = a
            return seg[j]

        def single(at):
            if at is self.hexed:
                return None
            if at[0] == "tb":
                s = Dom.atom(dom, at)
            else:
                s = dom.get(((at, 1),))
            if s and len(s) == 1 and s[0][0] == s[0][1]:
                return s[0][0]
            return None

        def cellidx(at):
            """offset of a cell atom relative to the new position, or None"""
            if len(at) == len(inp) + 1 and at[: len(inp)] == inp and is_num(at[-1]):
                t = at[-1]
                if type(t) is tuple and t[1] == ((PA, 1),):
                    return t[2] - K
                return "other"
            return None

        def consts(v):
            """singletons become constants"""
            if type(v) is int:
                return v
            c = v[2]
            ts = []
            for at, co in v[1]:
                s = single(at)
                if s is not None:
                    c += co * s
                else:
                    ts.append((at, co))
            if len(ts) == len(v[1]):
                return v
            return ("y", tuple(ts), c) if ts else c

        def is_w(at):
            return len(at) == 1 and type(at[0]) is N and at[0].label in ("w", "D")

        def stale(at):
            if at == PA or at == self.inlen or at == NH:
                return False
            k = cellidx(at)
            if k is not None:
                return k == "other" or k < 0
            if at[0] in ("fn",):
                return True
            if at[0] == "tb":
                return True
            return False

        def term(v):
            v = v0 = consts(v)
            if type(v) is int:
                return v
            for t, D in fmap:
                k = match_mult(v, t)
                if k is not None:
                    v = add(sub(v, scale_(t, k)), scale_(D, k))
                    if type(v) is int:
                        return v
            # position arithmetic
            c = v[2]
            ts = dict(v[1])
            pc = ts.get(PA, 0)
            if pc:
                c -= pc * K
                if pc == 1 and c < 0 and (len(ts) == 1 or self.inlen not in ts):
                    if len(ts) == 1 or all(is_s(a) for a in ts if a != PA):
                        del ts[PA]
                        a = satom(c)
                        ts[a] = ts.get(a, 0) + 1
                        c = 0
                elif pc == -1 and c > 0:
                    del ts[PA]
                    a = satom(-c)
                    ts[a] = ts.get(a, 0) - 1
                    c = 0
                ts = {a: k for a, k in ts.items() if k}
            if not ts:
                return c
            if any(stale(a) for a in ts) or (len(ts) > 1 and not all(a in (PA, self.inlen, NH) or is_s(a) for a in ts)) or (len(ts) == 1 and not all(x in (PA, self.inlen, NH) or is_s(x) for x in ts) and (c != 0 or list(ts.values())[0] not in (1, -1))):
                return wterm(v, v0)
            # rename the cells ahead
            out = []
            for a, k in ts.items():
                i = cellidx(a)
                if i is not None:
                    nv = self.cell(i)
                    keepat[("c", i)] = (a, nv[1][0][0])
                    out.append((nv[1][0][0], k))
                else:
                    out.append((a, k))
            from num import mk as nmk

            return nmk(out, c)

        Ds = set()

        def isD(ts):
            return all(a in Ds for a in ts)

        def is_s(a):
            return len(a) == 1 and type(a[0]) is N and a[0].label == "S"

        def coarse(s, byte):
            if byte and len(s) <= 3 and not g.dead:
                return s
            lo, hi = s[0][0], s[-1][1]
            b = blocks(s)
            if b:
                return b
            return (ladder(lo, hi),)

        def wterm(v, v0):
            r = wmap.get(v)
            if r is None:
                s = Dom.set_of(dom, v)
                if v0 is not v:
                    s = iv_inter(s, Dom.set_of(dom, v0))
                if not s:
                    raise Stop("empty")
                a = (N("w"),)
                d = coarse(s, len(v0[1]) == 1 and cellidx(v0[1][0][0]) is not None and v0[1][0][1] == 1 and v0[2] == 0)
                ATOMTY[a] = (-INF, INF)
                newdom[((a, 1),)] = dom[((a, 1),)] = d
                r = wmap[v] = ("y", ((a, 1),), 0)
            return r

        def fnum(v):
            if v[0] == "fl":
                return v
            e = v[1]
            if type(e) is tuple and e and e[0] == "fs":
                return v
            s = self.fsum(st, v)
            b = s[1]
            if b is not None:
                b = 308.25 if 19.5 < b <= 308.25 else b
                if b > 308.25:
                    b = None
                elif b <= 19.5:
                    b = 19.5
            return ("fy", ("fs", s[0], b))

        def mv(v):
            if type(v) is not tuple or not v:
                return v
            k = v[0]
            if k == "y" and len(v) == 3:
                return term(v)
            if k == "fy":
                return fnum(v)
            if k == "fl":
                return v
            if k == "R":
                pr = tuple([pj(e) for e in v[2]])
                return ("R", v[1], pr, mv(v[3]) if v[3] is not None else None)
            if k in ("O", "V", "M", "F"):
                return v
            if k == "OA":
                return v
            if k == "pc" and v[1] == "cp":
                return ("pc", "cp", v[2], mv(v[3]), mv(v[4]))
            return tuple([mv(e) if type(e) is tuple else e for e in v])

        def pj(e):
            if type(e) is tuple and e[0] in ("ix", "@"):
                t = mv(e[1])
                return t if e[0] == "ix" and type(t) is int else (e[0], t)
            return e

        # numbers the recogniser knows
        self.hexed = None
        lex = g.lex
        ended = False
        if lex[0] == "num" and not g.dead and g.pos == K:
            ex = self.exists(st, K)
            if ex is False:
                g = self.finish_num(g)
            elif ex and not iv_inter(Dom.set_of(dom, self.cell(K)), ivs_of(NUMCONT[lex[1]])):
                g = self.finish_num(g)
                ended = True
            lex = g.lex
        if lex[0] == "num":
            _, phase, neg, val, ex = lex
            if phase not in ("sign", "zero", "int"):
                nv = val if val == "big" else 0
            else:
                nv = self.foldnum(consts(val) if is_num(val) else val, dom, newdom, fmap, Ds, U64)
            if ex is not None and is_num(ex[1]):
                ex = (ex[0], self.foldnum(consts(ex[1]), dom, newdom, fmap, Ds, I31))
            lex = ("num", phase, neg, nv, ex)
        elif lex[0] == "str" and lex[5] is not None:
            cnt, val, hi = lex[5]
            val = consts(val)
            if cnt and type(val) is int:
                val = self.hexatom(E, st, val, dom, order)
            nv = self.foldnum(val, dom, newdom, fmap, Ds)
            if hi is not None:
                hi = self.foldnum(consts(hi), dom, newdom, fmap, Ds, exact=True)
            lex = lex[:5] + ((cnt, nv, hi),)
        pend = []
        for p in g.pend:
            if p[0] == "num":
                val, ex = p[2], p[3]
                if type(val) is tuple and val[0] == "flt":
                    val, ex = ("flt", "big" if self.may_overflow(st, val, ex) else 0), None
                if is_num(val):
                    val = self.foldnum(consts(val), dom, newdom, fmap, Ds, U64, done=True)
                elif type(val) is tuple and val[0] == "flt" and is_num(val[1]):
                    val = ("flt", 0)
                if ex is not None and is_num(ex[1]):
                    ex = (ex[0], self.foldnum(consts(ex[1]), dom, newdom, fmap, Ds, I31))
                p = ("num", p[1], val, ex)
            pend.append(p)
        # the atoms introduced stand for themselves
        fkeep = fmap
        g = g._replace(lex=lex, pend=tuple(pend))
        # strings
        if lex[0] == "str" and any(q[:2] == ("pc", "chr2") for q in lex[3]):
            # has the reader combined the halves of a surrogate pair?
            ps = combined(lex[3])
            terms = set()

            def look(v):
                if type(v) is tuple:
                    if v and v[0] == "y" and len(v) == 3:
                        terms.add(consts(v))
                    elif v and v[0] in ("b",) or v[:2] == ("pc", "chr"):
                        terms.add(consts(v[-1]) if is_num(v[-1]) else None)
                    for e in v:
                        if type(e) is tuple:
                            look(e)

            look(tuple(st.heap.values()))
            ps = tuple([n if q[:2] == ("pc", "chr2") and consts(n[2]) in terms else q for q, n in zip(lex[3], ps)])
            lex = lex[:3] + (ps,) + lex[4:]
            g = g._replace(lex=lex)
        if lex[0] == "str" and lex[3]:
            g = self.fold_string(E, st, g)
            lex = g.lex
        if lex[0] != "str":
            # the scratch buffer matters while a string is read, and until its text was delivered
            v = st.heap.get(self.reader)
            if v is not None and not any(p[0] == "Str" for p in g.pend):
                st.heap[self.reader] = ("S", tuple([("V", self.junkbuf) if i in self.bytef else e for i, e in enumerate(v[1])]))
                st.heap[self.junkbuf] = ("T", (("pc", "junk", self.junktok),))
            for a, v in list(st.heap.items()):
                if type(v) is tuple and v[0] in ("T", "A") and len(v[1]) > (0 if g.dead else 2) and (v[0] == "T" or all(is_num(x) for x in v[1]) and not (type(a) is tuple and len(a) == 2 and type(a[0]) is N)):
                    st.heap[a] = ("T", (("pc", "junk", N("dec")),))

        def gm(v):
            """ghost values: the folded terms are atoms already"""
            if type(v) is tuple and v and v[0] == "y" and len(v) == 3:
                if all(a in Ds for a, _ in v[1]):
                    return v
                return term(v)
            if type(v) is tuple and v:
                return tuple([gm(e) if type(e) is tuple else e for e in v])
            return v

        heap = {}
        for a, v in st.heap.items():
            heap[a] = mv(v)
        st.heap = heap
        st.ghost = g._replace(lex=gm(g.lex), pend=gm(g.pend), pos=max(g.pos - K, 0))
        # facts
        lo, hi = Dom.range(dom, self.left(K))
        nd = newdom
        exp = {}
        for k, v in st.exp.items():
            if mentions(k, PA) or (type(k) is tuple and k and k[0] in ("fclass", "fcmp", "utf8ok", "utf8", "teq")):
                continue
            exp[k] = v
        st.exp = exp
        peek = [0]
        # cells ahead which were looked at
        cells = {}
        for form, d in dom.items():
            if len(form) == 1:
                at = form[0][0]
                i = cellidx(at)
                if i is None:
                    if at != PA and at != self.inlen and not is_s(at) and at != NH and form not in nd:
                        if at in Ds or is_w(at):
                            nd[form] = coarse(d, d[0][0] >= 0 and d[-1][1] <= 255 and len(d) > 1)
                        elif not mentions(at, PA):
                            nd[form] = d
                elif i != "other" and not g.dead and i >= (1 if ended else 0) and i < 8:
                    nd[self.cell(i)[1]] = d
                    peek[0] = max(peek[0], i + 1)
        old_pairs = []
        st.dom = nd
        if hi <= 0:
            Dom.constrain(nd, self.left(0), ((lo if lo >= -3 else -INF, 0 if hi == 0 else hi),))
        else:
            Dom.constrain(nd, self.left(0), ((min(lo, max(1, peek[0])), INF),))
        pos = ("y", ((PA, 1),), 0)
        ss = sorted(seg)
        for j in ss:
            Dom.constrain(nd, sub(pos, ("y", ((seg[j], 1),), 0)), ((1, INF),))
        for i, j in enumerate(ss):
            for j2 in ss[i + 1 :]:
                Dom.constrain(nd, sub(("y", ((seg[j2], 1),), 0), ("y", ((seg[j], 1),), 0)), ((1, INF),))
        # facts about the older positions
        olds = {at for form in dom for at, _ in form if is_s(at)}
        for o in olds:
            ot = ("y", ((o, 1),), 0)
            l, h = Dom.range(dom, sub(("y", ((PA, 1),), K), ot))
            if l >= 0:
                Dom.constrain(nd, sub(pos, ot), ((min(l, 1), INF),))
            for j in ss:
                l, h = Dom.range(dom, sub(("y", ((PA, 1),), K + j), ot))
                if l >= 0:
                    Dom.constrain(nd, sub(("y", ((seg[j], 1),), 0), ot), ((min(l, 1), INF),))
            for o2 in olds:
                if o2 is not o:
                    l, h = Dom.range(dom, sub(("y", ((o2, 1),), 0), ot))
                    if l >= 0:
                        Dom.constrain(nd, sub(("y", ((o2, 1),), 0), ot), ((min(l, 1), INF),))
        used = set()
        collect(tuple(st.heap.values()), used)
        collect(tuple(st.ghost), used)
        st.dom = {f: d for f, d in nd.items() if all(not (len(a) == 1 and type(a[0]) is N) or a in used for a, _ in f)}
        st.exp = {k: v for k, v in exp.items() if not (type(k) is tuple and any(type(e) is tuple and any_sym(e) for e in k))}
        self.fold_leaves(E, st, order)

    def hexatom(self, E, st, c, dom, order):
        """the value of an escape so far is a constant: it and the reader's copy of it get a common name"""
        top = len(st.frames) - 1
        cands = []
        locs = E.I[st.frames[-1][0]]["locals"]
        for fi, n, a in order:
            v = st.heap.get(a) if n is not None else None
            if fi != top or v is None:
                continue
            if type(v) is int:
                t = E.T[locs[n]] if type(locs[n]) is int else {"k": "?"}
                size = {"u16": 2, "i16": 2, "u32": 4, "i32": 4}.get(t.get("n"), 8)
                if v == c:
                    cands.append((0 if size in (2, 4) else 1, n, a))
            elif type(v) is tuple and v[0] == "y":
                x = Dom.set_of(dom, v)
                if x == ((c, c),):
                    cands.append((0, n, a))
        a = (N("D"),)
        ATOMTY[a] = (-INF, INF)
        dom[((a, 1),)] = ((c, c),)
        v = ("y", ((a, 1),), 0)
        self.hexed = a
        if not cands:
            return c
        cands.sort(key=lambda x: x[:2])
        for rank, n, al in cands:
            if rank == cands[0][0]:
                st.heap[al] = v
        return v

    def foldnum(self, v, dom, newdom, fmap, Ds, top=None, exact=False, done=False):
        """a number of the recogniser becomes a symbol of its own"""
        if type(v) is int or v == "big":
            return v
        for t, D in fmap:
            if t == v:
                return D
        s = Dom.set_of(dom, v)
        if not s:
            raise Stop("empty")
        a = (N("D"),)
        ATOMTY[a] = (-INF, INF)
        lo, hi = s[0][0], s[-1][1]
        if top == I31:
            if lo > I31:
                return "big"
            d = (0, 288) if hi <= 288 else (0, max(hi, I31))
        elif top == U64:
            d = (min(lo, 1), U64)
            if done and lo > 1 << 63:
                d = ((1 << 63) + 1, U64)
            elif done and hi <= 1 << 63:
                d = (min(lo, 1), 1 << 63)
        else:
            d = (lo, hi) if exact else ladder(lo, hi)
        newdom[((a, 1),)] = dom[((a, 1),)] = (top is None and blocks(s)) or (d,)
        D = ("y", ((a, 1),), 0)
        fmap.append((v, D))
        Ds.add(a)
        return D

    def fold_string(self, E, st, g):
        lex = g.lex
        pieces = lex[3]
        if len(pieces) == 1 and pieces[0][0] == "pc" and pieces[0][1] in ("dec0", "dec1"):
            return g
        seg = lex[4]
        hit = None
        for a, v in st.heap.items():
            if type(v) is not tuple:
                continue
            if v[0] == "T" or (v[0] == "A" and v[1] and all(is_num(x) for x in v[1]) and not (type(a) is tuple and len(a) == 2 and type(a[0]) is N)):
                ps = norm_pieces(st, self.inp, [("b", x) for x in v[1]] if v[0] == "A" else list(v[1]))
                if any(q[:2] == ("pc", "junk") for q in ps):
                    continue
                if ps == pieces:
                    hit = (a, seg)
                elif ps and ps[:-1] == pieces and ps[-1][:2] == ("pc", "cp") and seg is not None and ps[-1][3] == seg:
                    hit = (a, ps[-1][4])
                if hit:
                    break
        ne = any(q[0] == "b" or q[1] in ("chr", "chr2", "dec1") for q in pieces)
        tok = N("dec")
        if hit:
            p = (("pc", "dec1" if ne else "dec0", tok),)
            st.heap[hit[0]] = ("T", p)
            return g._replace(lex=lex[:3] + (p, hit[1]) + lex[5:])
        if len(pieces) > 3:
            p = (("pc", "junk", tok),)
            # what the reader collected is not known either
            for a, v in list(st.heap.items()):
                if type(v) is tuple and v[0] == "T":
                    st.heap[a] = ("T", (("pc", "junk", N("dec")),))
            return g._replace(lex=lex[:3] + (p,) + lex[4:])
        return g

    def fold_leaves(self, E, st, order):
        """numbers which take many values become symbols"""
        sig = tuple((fr[0], fr[2]) for fr in st.frames)
        dom = st.dom
        dead = bool(st.ghost.dead)
        top = len(st.frames) - 1
        ctx = []

        def ints(v, d):
            if type(v) is int:
                ctx.append(v)
            elif type(v) is tuple and v and d < 12 and v[0] in ("S", "E"):
                for e in v[-1]:
                    ints(e, d + 1)

        def widen(at, path):
            form = ((at, 1),)
            s = dom.get(form)
            if not s:
                return
            lo, hi = s[0][0], s[-1][1]
            b = blocks(s)
            if b:
                dom[form] = b
                return
            key = (sig, path, ctx, dead, lo >= 0, dead or hi <= 288, dead or hi <= 0)
            r = self.ranges.setdefault(key, [set(), None])
            r[0].add(s)
            if len(r[0]) > (1 if dead else 2):
                r[1] = ladder(lo, hi) if r[1] is None else ladder(min(lo, r[1][0]), max(hi, r[1][1]))
                dom[form] = (r[1],)

        def walk(v, path, d):
            if type(v) is int:
                key = (sig, path)
                if key not in self.fold:
                    s = self.leaf.setdefault(key, set())
                    s.add(v)
                    if len(s) > 6:
                        self.fold.add(key)
                if key in self.fold:
                    a = (N("w"),)
                    ATOMTY[a] = (-INF, INF)
                    dom[((a, 1),)] = (ladder(v, v),)
                    return ("y", ((a, 1),), 0)
                return v
            if type(v) is not tuple or not v or d > 12:
                return v
            k = v[0]
            if k == "y":
                if len(v[1]) == 1:
                    at = v[1][0][0]
                    if len(at) == 1 and type(at[0]) is N and at[0].label == "w":
                        widen(at, path)
                return v
            if k == "S":
                return ("S", tuple([walk(e, path + (i,), d + 1) for i, e in enumerate(v[1])]))
            if k == "E":
                return ("E", v[1], tuple([walk(e, path + (v[1], i), d + 1) for i, e in enumerate(v[2])]))
            return v

        for fi, n, a in order:
            if fi == top and n is not None and a in st.heap:
                ints(st.heap[a], 0)
        ctx = tuple(ctx)
        for fi, n, a in order:
            if n is not None and a in st.heap:
                st.heap[a] = walk(st.heap[a], (fi, n), 0)

    def after_visit(self, E, st, key, new):
        """called for every arrival at a head, with the number of the state"""
        last, still = self.edge_in
        self.headof[key] = E.where(st) if hasattr(E, "where") else str(st.frames[-1][:3])
        if still:
            self.edges.setdefault(last, set()).add(key)
            self.how.setdefault((last, key), st.ev)

    def stuck(self):
        """the loop heads which lie on a cycle along which nothing changes and nothing is consumed"""
        from common_graph import sccs

        r = []
        for comp in sccs(self.edges):
            if len(comp) > 1 or comp[0] in self.edges.get(comp[0], ()):
                r.append(comp)
        return r


def shift_stack(st, lists, d, how):
    """the number of hidden levels is written NH; NH becomes NH + d (how: the kinds of the lists before),
    or the constant `how` """
    lists = set(lists)

    def num(v):
        ts = dict(v[1])
        co = ts.get(NH)
        if co is None:
            return v
        if type(how) is int:
            del ts[NH]
            c = v[2] + co * how
            return ("y", tuple(sorted(ts.items(), key=repr)), c) if ts else c
        return ("y", v[1], v[2] + co * d)

    def idx(p):
        x = p if type(p) is int else p[1] if type(p) is tuple and p[0] in ("ix", "@") else None
        if type(x) is int:
            x = ("y", ((NH, 1),), x + d)
        elif x is not None:
            x = num(x)
        else:
            return p
        if type(p) is tuple and p[0] == "@":
            return ("@", x)
        return x if type(x) is int else ("ix", x)

    def walk(v):
        if type(v) is not tuple or not v:
            return v
        if v[0] == "y" and len(v) == 3:
            return num(v)
        if v[0] == "R" and len(v) == 4 and v[1] in lists and v[2] and type(how) is dict and how[v[1]] == "A":
            return ("R", v[1], (idx(v[2][0]),) + v[2][1:], v[3])
        if v[0] == "R" and len(v) == 4 and v[1] in lists and v[2] and type(how) is int:
            p = v[2][0]
            x = num(p[1]) if type(p) is tuple and p[0] in ("ix", "@") else p
            if type(x) is int and p[0] == "ix":
                return ("R", v[1], (x,) + v[2][1:], walk(v[3]))
        return tuple([walk(e) if type(e) is tuple else e for e in v])

    for a, v in list(st.heap.items()):
        if type(v) is tuple and a not in lists:
            st.heap[a] = walk(v)
    for f in [f for f in st.dom if any(at == NH for at, _ in f)]:
        del st.dom[f]


def has_n(v):
    if type(v) is tuple:
        return any(has_n(e) for e in v)
    return type(v) is N


def mentions(v, at):
    if v == at:
        return True
    if type(v) is tuple:
        return any(type(e) is tuple and mentions(e, at) for e in v)
    return False


def any_w(v):
    return type(v) is tuple and any(len(a) == 1 and type(a[0]) is N and a[0].label == "w" for a, _ in v[1])


def collect(v, out, every=False):
    if type(v) is tuple:
        if len(v) == 3 and v[0] == "y":
            for a, _ in v[1]:
                if every or len(a) == 1 and type(a[0]) is N:
                    out.add(a)
                else:
                    collect(a, out)
            return
        for e in v:
            if type(e) is tuple:
                collect(e, out, every)


def find_bufs(v, out):
    if type(v) is tuple:
        if v and v[0] == "V" and len(v) == 2:
            out.add(v[1])
        for e in v:
            if type(e) is tuple:
                find_bufs(e, out)


def find_refs(v, out):
    if type(v) is tuple:
        if v and v[0] == "R" and len(v) == 4:
            out.append(v[1])
        elif v and v[0] in ("V", "M") and len(v) == 2:
            out.append(v[1])
        for e in v:
            if type(e) is tuple:
                find_refs(e, out)


def names_set(st):
    out = set()
    names_in(tuple(st.heap.items()), out)
    names_in(tuple(st.exp.items()), out)
    return out


def names_in_set(v):
    r = set()
    names_in(v, r)
    return r


def names_in(v, out):
    if type(v) is tuple:
        for e in v:
            if type(e) is tuple:
                names_in(e, out)
            elif type(e) is N:
                out.add(e)


def any_sym(v):
    if v and v[0] == "y" and len(v) == 3:
        return True
    return any(type(e) is tuple and any_sym(e) for e in v)


def scale_(v, k):
    from num import scale

    return scale(v, k)


def match_mult(v, t):
    """k with v - k*t free of the atoms of t, or None"""
    dv = dict(v[1])
    k = None
    for at, co in t[1]:
        c = dv.get(at)
        if c is None or c % co:
            return None
        q = c // co
        if k is None:
            k = q
        elif k != q:
            return None
    return k


def pair_value(hi, val):
    return add(add(scale_(add(hi, -0xD800), 1024), add(val, -0xDC00)), 0x10000)


def combined(ps):
    return tuple([("pc", "chr", pair_value(q[2], q[3])) if q[:2] == ("pc", "chr2") else q for q in ps])


def norm_pieces(st, inp, ps):
    """adjacent segments of the input are merged, single input bytes are segments"""
    r = []
    for q in ps:
        if q[0] == "b":
            b = q[1]
            if type(b) is tuple and b[0] == "y" and len(b[1]) == 1 and b[1][0][1] == 1 and b[2] == 0:
                at = b[1][0][0]
                if len(at) == len(inp) + 1 and at[: len(inp)] == inp:
                    q = ("pc", "cp", inp, at[-1], add(at[-1], 1))
            if q[0] == "b" and type(b) is tuple:
                s = Dom.set_of(st.dom, b)
                if s and s[0][0] == s[-1][1]:
                    q = ("b", s[0][0])
        elif q[1] == "chr":
            if type(q[2]) is int:
                r.extend(("b", x) for x in chr(q[2]).encode("utf8", "surrogatepass"))
                continue
            s = Dom.set_of(st.dom, q[2])
            if s and s[0][0] == s[-1][1]:
                r.extend(("b", x) for x in chr(s[0][0]).encode("utf8", "surrogatepass"))
                continue
        if q[0] == "pc" and q[1] == "cp":
            if sub(q[4], q[3]) == 0:
                continue
            if r and r[-1][:2] == ("pc", "cp") and sub(r[-1][4], q[3]) == 0:
                r[-1] = ("pc", "cp", inp, r[-1][3], q[4])
                continue
        r.append(q)
    return tuple(r)


def same_pieces(st, inp, a, b):
    a, b = norm_pieces(st, inp, combined(a)), norm_pieces(st, inp, combined(b))

    def poss_empty(q):
        if q[0] == "pc" and q[1] == "dec0":
            return st.dom.get(((("fn", "len", q), 1),)) == ((0, 0),)
        return q[0] == "pc" and q[1] == "cp" and Dom.range(st.dom, sub(q[4], q[3])) == (0, 0)

    a = [q for q in a if not poss_empty(q)]
    b = [q for q in b if not poss_empty(q)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == "pc" and y[0] == "pc" and x[1] == y[1] == "chr":
            if Dom.range(st.dom, sub(x[2], y[2])) == (0, 0):
                continue
        if x[0] != y[0] and (x[0] == "b" or y[0] == "b"):
            c, d = (x, y) if x[0] == "b" else (y, x)
            if d[1] == "chr" and is_num(c[1]) and Dom.range(st.dom, sub(c[1], d[2])) == (0, 0) and Dom.range(st.dom, d[2])[1] < 128:
                continue
        if x[0] == "b" and y[0] == "b" and Dom.range(st.dom, sub(x[1], y[1])) == (0, 0):
            continue
        return False
    return True


def show_pieces(ps):
    r = []
    for q in ps:
        if q[0] == "b":
            r.append("byte %s" % (q[1] if type(q[1]) is int else "?"))
        elif q[1] == "cp":
            r.append("a copy of input text")
        elif q[1] == "chr":
            r.append("an escaped char")
        else:
            r.append("earlier text")
    return "[" + ", ".join(r) + "]"


def show_event(e):
    if e[0] == "num":
        return "a number"
    if e[0] == "Str":
        return "a string"
    return e[0]


def show_g(g):
    what = {"val": "a value is due", "valc": "a value or ] is due", "key": "a key is due", "keyc": "a key or } is due", "colon": "a colon is due", "after": "after a value" if g.stk else "after the value"}[g.mode]
    if g.lex[0] == "num":
        what = "inside a number (%s)" % g.lex[1]
    elif g.lex[0] == "str":
        what = "inside a string (%s)" % g.lex[1]
    elif g.lex[0] == "lit":
        what = "inside a literal"
    return what


def hidden_frame(E, st, fr):
    raise Unknown("return to a hidden frame")


class JEngine(Engine):
    def frame_token(self, inst, st):
        # the same name for every activation, apart from those which exist at the same time
        used = {fr[1] for fr in st.frames if fr[0] == inst}
        i = 0
        while self.ftok(inst, i) in used:
            i += 1
        return self.ftok(inst, i)

    def ftok(self, inst, i):
        r = self.ftoks.get((inst, i))
        if r is None:
            r = self.ftoks[inst, i] = N("f")
        return r

    def visit(self, st):
        k = self.canon(st, [("R", a, (), None) for a in st.ghost.ctx[2]] if st.ghost is not None and st.ghost.ctx else ())
        i = self.C.ids.get(k)
        new = i is None
        if new:
            i = self.C.ids[k] = len(self.C.ids)
            self.stats["states"] += 1
        if st.ghost is not None:
            self.C.after_visit(self, st, i, new)
            if new:
                sig, lv = self.C.leaves(self, st, self.C.live_allocs(self, st))
                st.aux = (i, (sig, lv))
        return new


def byte_vec(P, f):
    t = P.T[P.rep(f)]
    return t["k"] == "adt" and t["path"].endswith("vec::Vec") and any(type(x) is int and P.T[P.rep(x)].get("n") == "u8" for x in t.get("args", ()))


def setup(P, rep):
    C = Reader(P, rep)
    E = JEngine(P, C)
    E.ftoks = {}
    C.E = E
    for p in ("deser::Error", "deser::DeserializeDriver"):
        for i, t in enumerate(P.T):
            if t["k"] == "adt" and (t["path"] == "deser::Error" or t["path"].endswith("::Error") and t["path"].startswith("deser::")):
                P.opq.add(i)
            if t["k"] == "adt" and t["path"].endswith("DeserializeDriver"):
                P.opq.add(i)
    C.utf8err = next((i for i, t in enumerate(P.T) if t["k"] == "adt" and t["path"].endswith("str::Utf8Error")), None)
    return C, E


def explore(rep, speedups=False):
    P = prog(speedups)
    C, E = setup(P, rep)
    E.budget = 200_000_000
    st = St()
    tok = (N("json"),)
    arg = E.mk(P.argty("root_json_de_new"), tok)
    C.inp = arg[1][1] + ("*",)
    C.inlen = arg[3][1][1][0][0]
    ATOMTY[C.inlen] = (0, MAXLEN)
    ATOMTY[PA] = (0, MAXLEN)
    E.start(st, "root_json_de_new", [arg])
    outs = E.run(st)
    E.visited = set()
    for o in outs:
        if o.kind != "ret":
            rep.add("C04:new", "creating the reader ends with %s" % o.kind)
            continue
        val = o.val
        if val[0] == "O":
            val = E.expand(o.st, val)
        rty = P.ret("root_json_de_new")
        fs = P.fields(P.rep(rty))
        nf = list(val[1])
        hits = [i for i, (f, v) in enumerate(zip(fs, nf)) if P.T[P.rep(f)]["k"] == "uint" and v == 0]
        if len(hits) == 1:
            nf[hits[0]] = ("y", ((PA, 1),), 0)
        else:
            raise Unknown("the position of the reader is not found")
        s = o.st
        s.frames = []
        Dom.constrain(s.dom, C.left(0), ((0, INF),))
        C.fixed = {v for v in names_set(s) }
        a = E.alloc(s, ("S", tuple(nf)), "reader")
        C.fixed.add(a[0] if type(a) is tuple else a)
        C.reader = a
        C.bytef = [i for i, f in enumerate(fs) if byte_vec(P, f)]
        C.junkbuf = N("v") 
        C.junktok = N("dec")
        C.fixed |= {C.junkbuf, C.junktok}
        s.ghost = G("val", ("ws",), (), (), 0, None, False, None, False, False)
        E.start(s, "root_json_de", [("R", a, (), None)])
        finish_reader(rep, C, E, E.run(s, False), P.ret("root_json_de"))
    return C, E


def finish_reader(rep, C, E, outs, rty):
    n = 0
    work = []
    for o in outs:
        n += 1
        if o.kind == "ret":
            work.append(o)
        elif o.kind in ("panic", "unwound"):
            rep.add("C04:panic:" + func_of(o.where), "%s: %s (%s)" % (o.where, o.msg, show_g(o.st.ghost)), "\n".join(trace_of(E, o)))
        elif o.kind == "ub":
            if o.msg.startswith("["):
                head, _, msg = o.msg[1:].partition("] ")
                rep.add(head + ":" + func_of(o.where), "%s: %s" % (o.where, msg), "\n".join(trace_of(E, o)))
            else:
                rep.add("C04:%s:%s" % (ubkey(o.msg), func_of(o.where)), "%s: %s" % (o.where, o.msg), "\n".join(trace_of(E, o)))
    while work:
        o = work.pop()
        rep.inc("returns checked")
        v = o.val
        try:
            if v[0] == "O":
                E.variant_of(o.st, v)
                o.val = E.expand(o.st, v)
            C.check_return(E, o, rty)
        except Fork as f:
            for r in f.refs:
                s = o.st.copy()
                if s.refine(r):
                    work.append(Outcome("ret", s, o.val, o.msg, o.where))
        except Stop:
            pass
        except Viol as e:
            rep.add("%s:%s" % (e.prop, e.key), e.msg, "\n".join(trace_of(E, o)))
        except Unknown as e:
            E.note_unknown(str(e))
    rep.inc("paths", n)
    rep.inc("edges without progress", sum(len(x) for x in C.edges.values()))
    for comp in C.stuck():
        fs = sorted({func_of(C.headof[k]) for k in comp})
        how = next(C.how[a, b] for a in comp for b in C.edges.get(a, ()) if b in comp)
        tr = []
        while how is not None and len(tr) < 60:
            how, e = how
            tr.append(str(e))
        rep.add("C04:endless loop:" + " ".join(fs), "a loop in %s can go on for ever without consuming input or changing anything" % " and ".join(sorted(C.headof[k] for k in comp)[:4]), "\n".join(reversed(tr)))


class FromStr(Client):
    """stops at the call of the reader"""

    def __init__(self, P):
        super().__init__()
        self.seen = []
        self.models = dict(getattr(self, "models", None) or {})
        for n in P.byname:
            if n.startswith("deser_json::") and "Deserializer" in n and n.endswith("::deserialize"):
                self.models[n] = self.read

    def read(self, E, st, c):
        a = c.args[0]
        r = E.fresh(st, c.destty, "result")
        self.seen.append((E.load(st, a[1], a[2]) if hasattr(E, "load") else st.heap[a[1]], r))
        return r


def check_from_str(rep):
    """from_str hands the whole text to a new reader and returns its result"""
    P = prog(False)
    C = FromStr(P)
    E = Engine(P, C)
    E.budget = 20000
    st = St()
    tok = (N("json"),)
    arg = E.mk(P.argty("root_json_from_str"), tok)
    E.start(st, "root_json_from_str", [arg])
    st2 = st.copy()
    for o in E.run(st):
        rep.inc("paths")
        if o.kind != "ret":
            rep.add("C04:from_str", "from_str ends with %s: %s" % (o.kind, o.msg))
            continue
        if not C.seen:
            E.note_unknown("from_str does not use the reader directly")
            continue
        if len(C.seen) > 1:
            E.note_unknown("from_str uses the reader in several ways")
            continue
        got, r = C.seen[0]
        if not same(E, o.st, o.val, r):
            rep.add("C05:from_str result", "from_str does not return the reader's result")
        E2 = Engine(P)
        s2 = st2.copy()
        s2.frames = []
        E2.start(s2, "root_json_de_new", [arg])
        for w in E2.run(s2):
            v = w.val
            if w.kind == "ret" and v[0] == "O":
                v = E2.expand(w.st, v)
            if w.kind != "ret" or norm_bufs(got) != norm_bufs(v):
                rep.add("C05:from_str input", "from_str does not read the whole text from its start with a new reader")
        rep.inc("obligations", 2)
    return E


def norm_bufs(v):
    if type(v) is tuple:
        if v and v[0] in ("V", "M") and len(v) == 2:
            return v[0]
        return tuple(norm_bufs(x) for x in v)
    return v


# ---- the checks
RULES = {
    "C04": "no panic, overflow, out of range index or invalid text on any path from any reader state; no loop iteration that neither consumes input nor changes anything",
    "C05": "success exactly when the recogniser of RFC 8259 accepts the whole input, errors only for texts outside of the grammar, numbers out of range or a refusing target",
    "C06": "every event equals the one the recogniser denotes for the token just read, in document order",
    "C16": "an error of the driver ends the read with an error",
}
ASSUME = ["std operations behave as documented (modelled)", "the target's driver may accept or refuse every event", "inputs are shorter than 2^62 bytes"]


def run_check(rep, prop):
    sub_ = Report(prop)
    unk = {}
    try:
        unk = dict(check_from_str(sub_).unknown)
        C, E = explore(sub_)
        unk.update(E.unknown)
        for k in ("states", "forks"):
            rep.inc(k, E.stats[k])
        rep.inc("functions", len(E.funcs))
    except Unknown as e:
        unk = {str(e): 1}
    rep.samples = sub_.samples
    for k, v in sub_.count.items():
        rep.inc(k, v)
    pick(rep, prop, sub_, other=())
    rep.inc("undecided paths", sum(unk.values()))
    rep.notes.update(unk)
    return dict(
        explanation="The MIR of the JSON reader is interpreted abstractly on a symbolic input of symbolic length and content, in lockstep with a recogniser of RFC 8259 reading the same symbolic bytes; loop heads are generalised (position, numbers, text, bottom of the container stack), so that the finitely many states reached cover every input. Decided: " + RULES[prop],
        coverage=dict(rule=RULES[prop]),
        assumptions=ASSUME,
    )


def check_C04(rep, tier):
    return run_check(rep, "C04")


def check_C05(rep, tier):
    return run_check(rep, "C05")


def check_C06(rep, tier):
    return run_check(rep, "C06")
