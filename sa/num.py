"""Numeric abstract domain: linear terms over symbols, with sets of intervals.

A number is a Python int or ('y', ((atom, coef), ...), const).  An atom is a token (a tuple) or
('tb', token, table): a function of one symbol with a finite domain, table = ((value, result), ...).
A domain is a sorted tuple of disjoint intervals ((lo, hi), ...).
"""
from math import gcd

INF = 1 << 200


def lin(atom, c=0):
    return ("y", ((atom, 1),), c)


def is_num(v):
    return type(v) is int or (type(v) is tuple and v and v[0] == "y")


def terms(v):
    if type(v) is int:
        return (), v
    return v[1], v[2]


def mk(ts, c):
    if not ts:
        return c
    return ("y", tuple(sorted(ts, key=_akey)), c)


def _akey(t):
    return repr(t[0])


def add(a, b, k=1):
    """a + k*b"""
    if type(a) is int and type(b) is int:
        return a + k * b
    ta, ca = terms(a)
    tb, cb = terms(b)
    d = dict(ta)
    for at, co in tb:
        n = d.get(at, 0) + k * co
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return mk(list(d.items()), ca + k * cb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return ("y", tuple((at, co * k) for at, co in a[1]), a[2] * k)


# ---- interval sets
def iv_inter(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def iv_norm(l):
    r = []
    for lo, hi in sorted(l):
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]:
                r[-1] = (r[-1][0], hi)
        else:
            r.append((lo, hi))
    return tuple(r)


def iv_compl(a):
    r = []
    lo = -INF
    for x, y in a:
        if x > lo:
            r.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        r.append((lo, INF))
    return tuple(r)


def iv_size(a):
    return sum(h - l + 1 for l, h in a)


def iv_values(a):
    for l, h in a:
        yield from range(l, h + 1)


def iv_has(a, x):
    return any(l <= x <= h for l, h in a)


def iv_from(vals):
    r = []
    for v in sorted(vals):
        if r and r[-1][1] == v - 1:
            r[-1][1] = v
        else:
            r.append([v, v])
    return tuple((a, b) for a, b in r)


FULL = ((-INF, INF),)

ATOMTY = {}  # token -> (lo, hi) of the type


class Dom:
    """Functions on the dom dict of a state: {form: interval set}"""

    @staticmethod
    def atom(dom, at):
        if at[0] == "tb":
            base = Dom.atom(dom, at[1])
            t = dict(at[2])
            return iv_from({t[x] for x in iv_values(base) if x in t})
        r = dom.get(((at, 1),))
        if r is not None:
            return r
        t = ATOMTY.get(at)
        return (t,) if t is not None and type(t[0]) is int else (t if t is not None else FULL)

    @staticmethod
    def norm(v):
        """-> (form, gcd k, c) with v = k*form + c, the leading coefficient positive"""
        ts, c = terms(v)
        if not ts:
            return None, 0, c
        g = 0
        for _, co in ts:
            g = gcd(g, abs(co))
        if ts[0][1] < 0:
            g = -g
        return tuple((a, co // g) for a, co in ts), g, c

    @staticmethod
    def set_of(dom, v):
        """interval set of a number"""
        if type(v) is int:
            return ((v, v),)
        form, k, c = Dom.norm(v)
        if len(form) == 1:
            s = Dom.atom(dom, form[0][0])
        else:
            lo = hi = 0
            for at, co in form:
                s = Dom.atom(dom, at)
                if not s:
                    return ()
                l, h = s[0][0], s[-1][1]
                if co > 0:
                    lo += l * co
                    hi += h * co
                else:
                    lo += h * co
                    hi += l * co
            s = ((max(lo, -INF), min(hi, INF)),)
            d = dom.get(form)
            if d is not None:
                s = iv_inter(s, d)
            elif len(form) <= 6 and len(dom) < 200:
                # combine with the known forms which share atoms: v = form' + rest
                for f2, d2 in dom.items():
                    if len(f2) > 1 and len(f2) < len(form) + 2 and any(a in dict(form) for a, _ in f2):
                        for sg in (1, -1):
                            rest = dict(form)
                            for at, co in f2:
                                n = rest.get(at, 0) - sg * co
                                if n:
                                    rest[at] = n
                                else:
                                    rest.pop(at, None)
                            if len(rest) >= len(form):
                                continue
                            lo = d2[0][0] * sg if sg > 0 else -d2[-1][1]
                            hi = d2[-1][1] * sg if sg > 0 else -d2[0][0]
                            for at, co in rest.items():
                                s2 = Dom.atom(dom, at)
                                if not s2:
                                    return ()
                                l, h = s2[0][0], s2[-1][1]
                                lo += l * co if co > 0 else h * co
                                hi += h * co if co > 0 else l * co
                            s = iv_inter(s, ((max(lo, -INF), min(hi, INF)),))
                            if not s:
                                return ()
        if k == 1 and c == 0:
            return s
        if k == 1:
            return tuple((a + c, b + c) for a, b in s)
        if k == -1:
            return tuple((c - b, c - a) for a, b in reversed(s))
        if len(form) == 1 and iv_size(s) <= 300:
            return iv_from({x * k + c for x in iv_values(s)})
        if k > 0:
            return tuple((a * k + c, b * k + c) for a, b in s)
        return tuple((b * k + c, a * k + c) for a, b in reversed(s))

    @staticmethod
    def range(dom, v):
        if type(v) is int:
            return v, v
        s = Dom.set_of(dom, v)
        if not s:
            return 1, 0
        return s[0][0], s[-1][1]

    @staticmethod
    def constrain(dom, v, ivs):
        """restricts v to be in ivs; False if that is impossible (dom is modified)"""
        if type(v) is int:
            return iv_has(ivs, v)
        form, k, c = Dom.norm(v)
        # form in (ivs - c)/k
        r = []
        for lo, hi in ivs:
            lo -= c
            hi -= c
            if k < 0:
                lo, hi = -hi, -lo
            kk = abs(k)
            lo2 = -((-lo) // kk) if lo > -INF // 2 else -INF
            hi2 = hi // kk if hi < INF // 2 else INF
            if lo2 <= hi2:
                r.append((lo2, hi2))
        r = iv_norm(r)
        if len(form) == 1:
            at = form[0][0]
            if at[0] == "tb":
                t = dict(at[2])
                base = Dom.atom(dom, at[1])
                ok = {x for x in iv_values(base) if x in t and iv_has(r, t[x])}
                if not ok:
                    return False
                dom[((at[1], 1),)] = iv_from(ok)
                return True
            n = iv_inter(Dom.atom(dom, at), r)
            if not n:
                return False
            dom[form] = n
            return Dom.propagate(dom, at)
        cur = Dom.set_of(dom, ("y", form, 0))
        n = iv_inter(cur, r)
        if not n:
            return False
        dom[form] = n
        # tighten the atoms
        lo, hi = n[0][0], n[-1][1]
        rng = []
        for at, co in form:
            s = Dom.atom(dom, at)
            if not s:
                return False
            rng.append((s[0][0], s[-1][1]))
        for i, (at, co) in enumerate(form):
            olo = ohi = 0
            for j, (a2, c2) in enumerate(form):
                if j != i:
                    l, h = rng[j]
                    olo += l * c2 if c2 > 0 else h * c2
                    ohi += h * c2 if c2 > 0 else l * c2
            # co*at in [lo-ohi, hi-olo]
            l, h = lo - ohi, hi - olo
            if co < 0:
                l, h = -h, -l
            kk = abs(co)
            if l > -INF // 2:
                l = -((-l) // kk)
            else:
                l = -INF
            h = h // kk if h < INF // 2 else INF
            if l > rng[i][0] or h < rng[i][1]:
                if at[0] == "tb":
                    continue
                s = iv_inter(Dom.atom(dom, at), ((l, h),))
                if not s:
                    return False
                dom[((at, 1),)] = s
        return True

    @staticmethod
    def propagate(dom, at):
        for f, d in list(dom.items()):
            if len(f) > 1 and any(a == at for a, _ in f):
                lo = hi = 0
                for a, co in f:
                    s = Dom.atom(dom, a)
                    if not s:
                        return False
                    l, h = s[0][0], s[-1][1]
                    lo += l * co if co > 0 else h * co
                    hi += h * co if co > 0 else l * co
                n = iv_inter(d, ((lo, hi),))
                if not n:
                    return False
                dom[f] = n
        return True
