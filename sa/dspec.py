"""The derived types the derive checks look at, and what the documentation says
about them.  `python3 sa/dspec.py` writes fixture-derive/src/gen.rs."""
import os
import re

STYLES = [None, "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def unraw(i):
    return i[2:] if i.startswith("r#") else i


def cap(w):
    return w[:1].upper() + w[1:]


def field_style(style, ident):
    """a snake_case identifier in one of the documented styles"""
    w = unraw(ident).split("_")
    return {
        None: "_".join(w),
        "lowercase": "_".join(w),
        "UPPERCASE": "_".join(w).upper(),
        "PascalCase": "".join(map(cap, w)),
        "camelCase": w[0] + "".join(map(cap, w[1:])),
        "snake_case": "_".join(w),
        "SCREAMING_SNAKE_CASE": "_".join(w).upper(),
        "kebab-case": "-".join(w),
        "SCREAMING-KEBAB-CASE": "-".join(w).upper(),
    }[style]


def variant_style(style, ident):
    """a PascalCase identifier in one of the documented styles"""
    i = unraw(ident)
    w = re.findall("[A-Z][^A-Z]*", i)
    assert "".join(w) == i
    low = [x.lower() for x in w]
    return {
        None: i,
        "lowercase": i.lower(),
        "UPPERCASE": i.upper(),
        "PascalCase": i,
        "camelCase": i[0].lower() + i[1:],
        "snake_case": "_".join(low),
        "SCREAMING_SNAKE_CASE": "_".join(low).upper(),
        "kebab-case": "-".join(low),
        "SCREAMING-KEBAB-CASE": "-".join(low).upper(),
    }[style]


class F:
    def __init__(self, ident, ty, rename=None, aliases=(), default=None, flatten=None, skip_if=False):
        self.ident = ident
        self.ty = ty
        self.rename = rename
        self.aliases = tuple(aliases)
        self.default = default  # None, "impl", "fn"
        self.flatten = flatten  # None, "opaque" or the name of a struct
        self.skip_if = skip_if
        self.opt = ty.startswith("Option<")

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append('rename = "%s"' % self.rename)
        a += ['alias = "%s"' % x for x in self.aliases]
        if self.default == "impl":
            a.append("default")
        if self.default == "fn":
            a.append('default = "crate::opq::make"')
        if self.flatten:
            a.append("flatten")
        if self.skip_if:
            a.append('skip_serializing_if = "crate::opq::pred"')
        return a


class D:
    """a derived struct"""

    def __init__(self, name, fields, style=None, default=None, skip_opt=False, rename=None, generics="", params="", split=False):
        self.name = name
        self.fields = fields
        self.style = style
        self.default = default
        self.skip_opt = skip_opt
        self.rename = rename
        self.generics = generics
        self.params = params
        self.split = split  # each attribute in a #[deser] of its own

    def wire(self, f):
        return f.rename if f.rename is not None else field_style(self.style, f.ident)

    def rust(self):
        a = []
        if self.rename:
            a.append('rename = "%s"' % self.rename)
        if self.style:
            a.append('rename_all = "%s"' % self.style)
        if self.default == "impl":
            a.append("default")
        if self.default == "fn":
            a.append('default = "mk_%s"' % self.name)
        if self.skip_opt:
            a.append("skip_serializing_optionals")
        out = ["#[derive(deser::Serialize, deser::Deserialize)]"]
        out += attr(a, self.split)
        out.append("pub struct %s%s {" % (self.name, self.generics))
        for f in self.fields:
            out += ["    " + x for x in attr(f.attrs(), self.split)]
            out.append("    pub %s: %s," % (f.ident, f.ty))
        out.append("}")
        if self.default == "impl":
            out.append("impl Default for %s { fn default() -> Self { crate::opq::make() } }" % self.name)
        if self.default == "fn":
            out.append("pub fn mk_%s() -> %s { crate::opq::make() }" % (self.name, self.name))
        return out


class En:
    def __init__(self, name, variants, style=None, split=False):
        self.name = name
        self.variants = variants
        self.style = style
        self.split = split
        self.params = ""

    def wire(self, f):
        return f.rename if f.rename is not None else variant_style(self.style, f.ident)

    def rust(self):
        out = ["#[derive(deser::Serialize, deser::Deserialize)]"]
        out += attr(['rename_all = "%s"' % self.style] if self.style else [], self.split)
        out.append("pub enum %s {" % self.name)
        for f in self.variants:
            out += ["    " + x for x in attr(f.attrs(), self.split)]
            out.append("    %s," % f.ident)
        out.append("}")
        return out


def attr(a, split):
    if not a:
        return []
    if split:
        return ["#[deser(%s)]" % x for x in a]
    return ["#[deser(%s)]" % ", ".join(a)]


def sname(style):
    return "none" if style is None else re.sub("[^A-Za-z]", "", style)


NAMES = []  # C18: structs
ENUMS = []  # C18, C13: enums
for _k, _st in enumerate(STYLES):
    NAMES.append(
        D(
            "Nm%d_%s" % (_k, sname(_st)),
            [
                F("a", "V<0>"),
                F("foo_bar", "V<1>"),
                F("one_two_three", "V<2>"),
                F("r#type", "V<3>"),
                F("x1", "V<4>"),
                F("other_name", "V<5>", rename="Re Named"),
                F("with_alias", "V<6>", aliases=["al1", "Al-2"]),
                F("both_of", "V<7>", rename="bOth", aliases=["both_of_them"]),
                F("a_b_c", "V<8>"),
                F("zeta", "V<9>", rename="", aliases=["zeta"]),
            ],
            style=_st,
            split=_k % 2 == 1,
            rename="Type Name" if _k % 3 == 2 else None,
        )
    )
    ENUMS.append(
        En(
            "En%d_%s" % (_k, sname(_st)),
            [
                F("A", ""),
                F("FooBar", ""),
                F("OneTwoThree", ""),
                F("Zeta", ""),
                F("X1", ""),
                F("OtherName", "", rename="Re Named"),
                F("WithAlias", "", aliases=["al1", "Al-2"]),
                F("BothOf", "", rename="bOth", aliases=["both_of_them"]),
                F("AbC", ""),
            ],
            style=_st,
            split=_k % 2 == 1,
        )
    )
    _f = [F("with2digits", "V<0>"), F("y_1", "V<1>"), F("a1_b2", "V<2>"), F("long_name_with_many_words_in_it", "V<3>"), F("r#match", "V<4>", aliases=["m"]), F("_lead", "V<6>"), F("trail_", "V<7>"), F("dou__ble", "V<8>")]
    _v = [F("V2Beta", ""), F("LongNameWithManyWordsInIt", ""), F("Aa1Bb", ""), F("B", "", aliases=["m"]), F("HttpOK", ""), F("XMLReader", "", aliases=["a1", "a2", "a3"])]
    if _st in (None, "lowercase", "snake_case", "camelCase", "kebab-case"):
        _f.append(F("gr\u00f6\u00dfe_in_m", "V<5>"))
        _v.append(F("Gr\u00f6\u00dfeInM", ""))
    NAMES.append(D("Nn%d_%s" % (_k, sname(_st)), _f, style=_st))
    ENUMS.append(En("Eo%d_%s" % (_k, sname(_st)), _v, style=_st))
# the order of the declaration is not the order of the names; generic; many fields
NAMES.append(D("NmGen", [F("zz", "T", aliases=["z"]), F("aa_a", "V<1>", rename="zzz")], style="camelCase", generics="<T>", params="<V<0>>"))
NAMES.append(D("NmMany", [F("f%d_x" % i, "V<%d>" % i, aliases=["g%d" % i] if i % 4 == 1 else ()) for i in range(12)], style="kebab-case"))
NAMES.append(D("NmOne", [F("only", "V<0>")]))
NAMES.append(D("NmZero", []))
ENUMS.append(En("EnOne", [F("Only", "", aliases=["o"])], style="lowercase"))

DEFAULTS = []  # C21
for _c in (None, "impl", "fn"):
    DEFAULTS.append(
        D(
            "Df_%s" % (_c or "none"),
            [
                F("req", "V<0>", rename="Req"),
                F("opt", "Option<V<1>>"),
                F("def", "V<2>", default="impl"),
                F("dfn", "V<3>", default="fn"),
                F("odf", "Option<V<4>>", default="fn"),
                F("odi", "Option<V<5>>", default="impl"),
                F("req2", "V<6>"),
            ],
            default=_c,
        )
    )
    DEFAULTS.append(D("DfAll_%s" % (_c or "none"), [F("d1", "V<0>", default="impl"), F("d2", "V<1>", default="fn")], default=_c))
    DEFAULTS.append(D("DfReq_%s" % (_c or "none"), [F("r1", "V<0>"), F("r2", "V<1>"), F("r3", "V<2>")], default=_c, style="UPPERCASE"))
    DEFAULTS.append(D("DfOpt_%s" % (_c or "none"), [F("o1", "Option<V<0>>"), F("o2", "Option<V<1>>")], default=_c))
DEFAULTS.append(D("DfZero", []))

SKIPS = []  # C22
for _o in (False, True):
    SKIPS.append(
        D(
            "Sk%d" % _o,
            [
                F("a", "V<0>", skip_if=True),
                F("b", "V<1>"),
                F("c", "V<2>", skip_if=True),
                F("d", "Option<V<3>>"),
                F("e", "Option<V<4>>", skip_if=True),
            ],
            skip_opt=_o,
        )
    )
    SKIPS.append(D("SkFlat%d" % _o, [F("a", "V<0>"), F("f", "V<1>", flatten="opaque"), F("b", "V<2>", skip_if=True)], skip_opt=_o))
    SKIPS.append(D("SkFlatIf%d" % _o, [F("f", "V<1>", flatten="opaque", skip_if=True), F("g", "V<2>", flatten="opaque"), F("b", "V<3>")], skip_opt=_o))
    SKIPS.append(D("SkUnit%d" % _o, [F("a", "()"), F("b", "bool"), F("c", "Option<()>")], skip_opt=_o))
INNER = D("Inner", [F("x", "V<6>"), F("y", "Option<V<7>>", skip_if=True)])
INNER2 = D("InnerB", [F("z_z", "V<8>", aliases=["x"]), F("a", "V<9>", default="impl")], style="camelCase")
FLATS = [  # C23
    D("Fl1", [F("a", "V<0>"), F("f", "V<1>", flatten="opaque"), F("b", "V<2>"), F("g", "V<3>", flatten="opaque")]),
    D("Fl2", [F("f", "V<1>", flatten="opaque"), F("g", "V<3>", flatten="opaque")], default="fn"),
    D("Fl3", [F("a", "V<0>"), F("f", "Inner", flatten="Inner"), F("g", "InnerB", flatten="InnerB"), F("b", "V<1>")]),
    D("Fl4", [F("h", "Fl5", flatten="Fl5"), F("c", "V<2>")]),
]
FL5 = D("Fl5", [F("f", "Inner", flatten="Inner"), F("b", "V<1>")])

BYNAME = {d.name: d for d in (INNER, INNER2, FL5)}

EXTRA = """
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Newtype(pub V<0>);
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NewtypeG<T>(pub T);
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NewtypeO(pub Option<V<0>>);
dser! { root_s_newtype: Newtype; root_s_newtypeg: NewtypeG<V<0>>; root_s_newtypeo: NewtypeO; }
dde! {
    root_d_newtype: Newtype; root_d_newtypeg: NewtypeG<V<0>>; root_d_newtypeopt: NewtypeO;
    root_d_optnewtype: Option<Newtype>;
}
// recursive types
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Rec {
    v: V<0>,
    next: Option<Box<Rec>>,
    kids: Vec<Rec>,
    named: BTreeMap<String, Rec>,
    other: HashMap<String, RecNew>,
    pair: Option<(Box<Rec>, RecNew)>,
    #[deser(flatten)]
    flat: RecFlat,
}
#[derive(deser::Serialize, deser::Deserialize)]
pub struct RecFlat {
    inner: Option<Box<Rec>>,
}
#[derive(deser::Serialize, deser::Deserialize)]
pub struct RecNew(Vec<RecNew>);
#[derive(deser::Serialize)]
pub struct RecRef<'a> {
    up: Option<&'a RecRef<'a>>,
    all: &'a [RecRef<'a>],
}
dser! { root_s_rec: Rec; root_s_recnew: RecNew; root_s_recref: RecRef<'a>; }
dde! { root_d_rec: Rec; root_d_recnew: RecNew; }
// the sinks of fields
dde! { root_d_string: String; root_d_opt: Option<V<1>>; }
"""


def structs():
    return NAMES + DEFAULTS + SKIPS + [INNER, INNER2, FL5] + FLATS


def root(name):
    return name.lower()


def generate():
    out = ["// generated by sa/dspec.py"]
    out.append("macro_rules! dser { ($($name:ident: $ty:ty;)*) => { $( pub fn $name<'a>(x: &'a $ty) -> &'a dyn Serialize { x } )* }; }")
    out.append("macro_rules! dde { ($($name:ident: $ty:ty;)*) => { $( pub fn $name<'a>(x: &'a mut Option<$ty>) -> SinkHandle<'a> { Deserialize::deserialize_into(x) } )* }; }")
    for d in structs() + ENUMS:
        out += d.rust()
        out.append("dser! { root_s_%s: %s%s; }" % (root(d.name), d.name, d.params))
        out.append("dde! { root_d_%s: %s%s; }" % (root(d.name), d.name, d.params))
    out.append(EXTRA.strip())
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixture-derive", "src", "gen.rs")
    open(p, "w").write(generate())
