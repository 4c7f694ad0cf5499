"""C19 and C20: what the derives accept, by compiling witnesses against the current tree."""
import re

import witness
from .common import *

PRE = """use deser::{Serialize, Deserialize};
#[derive(Serialize, Deserialize, Default)] pub struct I { x: u8 }
fn mk<T: Default>() -> T { T::default() }
fn pr<T>(_: &T) -> bool { false }
"""
# position -> (text with the attribute at @, what a valid attribute is, attribute -> forms which are allowed there)
POS = {
    "a struct": ("@ struct S { a: I, b_c: Option<u8> }\nfn mks() -> S { mk() }\nimpl Default for S { fn default() -> S { S { a: mk(), b_c: None } } }", {"rename": "s", "rename_all": "s", "default": "ps", "skip_serializing_optionals": "p"}),
    "an enum": ("@ enum S { A, Bc }\nimpl Default for S { fn default() -> S { S::A } }", {"rename": "s", "rename_all": "s"}),
    "a newtype": ("@ struct S(I);\nimpl Default for S { fn default() -> S { S(mk()) } }", {"rename": "s"}),
    "a field": ("struct S { z: I, @ a: I, b: u8 }", {"rename": "s", "alias": "s", "default": "ps", "flatten": "p", "skip_serializing_if": "s"}),
    "the last field": ("struct S { z: I, #[deser(default)] y: I, @ a: I }", {"rename": "s", "alias": "s", "default": "ps", "flatten": "p", "skip_serializing_if": "s"}),
    "the field of a newtype": ("struct S(@ I);", {}),
    "a variant": ("enum S { Z, @ A, B }", {"rename": "s", "alias": "s"}),
    "the last variant": ("enum S { Z, #[deser(alias = \"y\")] Y, @ A }", {"rename": "s", "alias": "s"}),
}
VALID = {"a struct": 'rename = "Other"', "an enum": 'rename_all = "lowercase"', "a field": 'alias = "other"', "the last field": 'alias = "other"', "a variant": 'alias = "other"', "the last variant": 'alias = "other"'}
KEYS = {
    "rename": "n",
    "rename_all": "snake_case",
    "default": "mk",
    "alias": "al",
    "flatten": "mk",
    "skip_serializing_optionals": "pr",
    "skip_serializing_if": "pr",
    # nothing of deser
    "renam": "n",
    "renameall": "snake_case",
    "rename_": "n",
    "Rename": "n",
    "deser": "n",
    "deser::rename": "n",
    "skip": "pr",
    "skip_serializing": "pr",
    "skip_deserializing": "pr",
    "aliases": "al",
    "with": "mk",
    "tag": "n",
    "transparent": "n",
    "bound": "T: Clone",
    "deny_unknown_fields": "n",
    "other": "n",
}
FORMS = {
    "p": lambda k, v: k,
    "s": lambda k, v: '%s = "%s"' % (k, v),
    "i": lambda k, v: "%s = 1" % k,
    "b": lambda k, v: "%s = true" % k,
    "y": lambda k, v: '%s = b"%s"' % (k, v),
    "c": lambda k, v: "%s = 'n'" % k,
    "f": lambda k, v: "%s = 1.5" % k,
    "l": lambda k, v: '%s("%s")' % (k, v),
    "l0": lambda k, v: "%s()" % k,
    "ln": lambda k, v: '%s(%s = "%s")' % (k, k, v),
}
LITS = ['"default"', '"rename"', "1", "true", "'c'", 'b"alias"']
RAW = [  # whole attributes
    "#[deser]",
    '#[deser = "default"]',
    '#[deser("default")]',
    "#[deser(rename)]",
    '#[deser(rename = "a" "b")]',
    '#[deser(rename == "a")]',
    "#[deser(rename =)]",
    '#[deser(= "a")]',
    "#[deser(rename = name)]",
    '#[deser(rename = "a"; alias = "b")]',
    "#[deser[+]]",
]
STYLES = ["", "Lowercase", "LOWERCASE", "lower", "lower_case", "uppercase", "Uppercase", "pascalCase", "pascal_case", "PascalCase ", " camelCase", "CamelCase", "camelcase", "snakecase", "snake-case", "Snake_Case", "SCREAMING_SNAKE", "screaming_snake_case", "SCREAMING-SNAKE-CASE", "kebab_case", "Kebab-Case", "KEBAB-CASE", "SCREAMING_KEBAB_CASE", "screaming-kebab-case", "none", "Train-Case"]
PATHS = ["", "1x", "not a path", "mk()", "a::", "::", "|x| true", "mk,", "a-b", "\\\"mk\\\"", "{}", "&mk", "#"]

DUP_STRUCT = {
    "the names of two fields": '#[deser(rename = "b")] a: u8, b: u8',
    "two renames": '#[deser(rename = "x")] a: u8, m: u8, #[deser(rename = "x")] b: u8',
    "a field and an alias before it": '#[deser(alias = "b")] a: u8, b: u8',
    "a field and an alias after it": 'a: u8, #[deser(alias = "a")] b: u8',
    "an alias and a rename after it": '#[deser(alias = "x")] a: u8, m: u8, #[deser(rename = "x")] b: u8',
    "an alias and a rename before it": '#[deser(rename = "x")] a: u8, m: u8, #[deser(alias = "x")] b: u8',
    "the aliases of two fields": '#[deser(alias = "x")] a: u8, m: u8, #[deser(alias = "x")] b: u8',
    "the second aliases of two fields": '#[deser(alias = "y", alias = "x")] a: u8, #[deser(alias = "z", alias = "x")] b: u8',
    "an alias and the name of the same field": '#[deser(alias = "a")] a: u8, b: u8',
    "an alias and the rename of the same field": '#[deser(rename = "x", alias = "x")] a: u8, b: u8',
    "two aliases of a field": '#[deser(alias = "x", alias = "y", alias = "x")] a: u8, b: u8',
    "two aliases of a field in two attributes": '#[deser(alias = "x")] #[deser(alias = "x")] a: u8, b: u8',
    "the first and the last of many": 'a: u8, b: u8, c: u8, d: u8, e: u8, #[deser(alias = "a")] f: u8',
    "the last two of many": 'a: u8, b: u8, c: u8, d: u8, e: u8, #[deser(rename = "e")] f: u8',
    "fields around a flattened one": 'a: u8, #[deser(flatten)] i: I, #[deser(rename = "a")] f: u8',
    "a defaulted and a plain field": '#[deser(default)] a: u8, #[deser(rename = "a", default = "mk")] b: u8',
    "the empty name": '#[deser(rename = "")] a: u8, #[deser(alias = "")] b: u8',
}
DUP_STYLED = {
    "camelCase": '#[deser(rename = "aB")] x: u8, a_b: u8',
    "kebab-case": 'a_b: u8, #[deser(alias = "a-b")] x: u8',
    "UPPERCASE": '#[deser(alias = "A")] a: u8',
    "PascalCase": 'a_b: u8, aB: u8',
    "SCREAMING-KEBAB-CASE": '#[deser(alias = "A-B")] x: u8, a_b: u8',
    "SCREAMING_SNAKE_CASE": 'a_b: u8, #[deser(rename = "A_B")] x: u8',
}
DUP_ENUM = {
    "the names of two variants": '#[deser(rename = "B")] A, B',
    "two renames": '#[deser(rename = "x")] A, M, #[deser(rename = "x")] B',
    "a variant and an alias before it": '#[deser(alias = "B")] A, B',
    "a variant and an alias after it": 'A, #[deser(alias = "A")] B',
    "an alias and a rename after it": '#[deser(alias = "x")] A, M, #[deser(rename = "x")] B',
    "an alias and a rename before it": '#[deser(rename = "x")] A, M, #[deser(alias = "x")] B',
    "the aliases of two variants": '#[deser(alias = "x")] A, M, #[deser(alias = "x")] B',
    "the second aliases of two variants": '#[deser(alias = "y", alias = "x")] A, #[deser(alias = "z", alias = "x")] B',
    "an alias and the name of the same variant": '#[deser(alias = "A")] A, B',
    "two aliases of a variant": '#[deser(alias = "x", alias = "y", alias = "x")] A, B',
    "the first and the last of many": 'A, B, C, D, E, #[deser(alias = "A")] F',
    "the last two of many": 'A, B, C, D, E, #[deser(rename = "E")] F',
}
DUP_ENUM_STYLED = {
    "lowercase": 'AB, Ab',
    "snake_case": '#[deser(rename = "a_b")] X, AB',
    "kebab-case": 'AB, #[deser(alias = "a-b")] X',
    "camelCase": '#[deser(alias = "aB")] X, AB',
    "UPPERCASE": 'Aa, AA',
}
SHAPES = {
    "a tuple struct without fields": "struct S();",
    "a tuple struct with two fields": "struct S(u8, u8);",
    "a tuple struct with three fields": "struct S(u8, Option<u8>, u8);",
    "a generic tuple struct with two fields": "struct S<T>(T, T);",
    "a union": "#[derive(Clone, Copy)] union S { a: u8, b: u8 }",
    "a union with one field": "union S { a: u8 }",
    "an enum with a tuple variant": "enum S { A(u8) }",
    "an enum with two fields in a variant": "enum S { A(u8, u8), B }",
    "an enum with a struct variant": "enum S { A, B { x: u8 } }",
    "an enum with data in its last variant": "enum S { A, B, C, D(u8) }",
    "an enum with data in its first variant": "enum S { A(u8), B, C, D }",
    "an enum with an empty struct variant": "enum S { A {}, B }",
    "an enum with an empty tuple variant": "enum S { A(), B }",
    "an enum with a newtype variant of unit": "enum S { A(()), B }",
}
CONTRA = {
    "flatten and default": ("flatten", "default"),
    "flatten and a default function": ("flatten", 'default = "mk"'),
    "flatten and rename": ("flatten", 'rename = "x"'),
    "flatten and alias": ("flatten", 'alias = "x"'),
    "default and a default function": ("default", 'default = "mk"'),
}


def value(pos, key):
    return "mks" if (pos, key) == ("a struct", "default") else KEYS[key]


BOTH = ("Serialize", "Deserialize")


def fails():
    """(name, key, derives, text which must not compile, its compiling twin)"""
    for pos, (text, valid) in POS.items():
        wrap = ["#[deser(@)]"]
        if pos in VALID:
            wrap += ["#[deser(%s, @)]" % VALID[pos], "#[deser(@, %s)]" % VALID[pos], "#[deser(@)] #[deser(%s)]" % VALID[pos], "#[deser(%s)] #[deser(@)]" % VALID[pos], "#[allow(dead_code)] #[deser(@)]"]
        for k, v in KEYS.items():
            v = value(pos, k)
            for f, mk in FORMS.items():
                if f in valid.get(k, ""):
                    continue
                if k == "rename" and f == "s" and pos in ("an enum", "a newtype"):
                    continue
                for w in wrap:
                    yield "%s on %s" % (mk(k, v), pos), "attribute:%s:%s" % (pos, k), BOTH, text.replace("@", w.replace("@", mk(k, v))), text.replace("@", "")
        for lit in LITS:
            for w in wrap:
                yield "%s on %s" % (lit, pos), "attribute:%s:literal" % pos, BOTH, text.replace("@", w.replace("@", lit)), text.replace("@", "")
        for raw in RAW:
            if raw == "#[deser(rename)]" and "rename" in valid and "p" in valid["rename"]:
                continue
            yield "%s on %s" % (raw, pos), "malformed:%s" % pos, BOTH, text.replace("@", raw), text.replace("@", "")
        for k, forms in valid.items():
            if k == "alias":
                continue
            fs = [FORMS[f](k, value(pos, k)) for f in forms]
            for a in fs:
                for b in fs:
                    for w in ("#[deser(%s, %s)]", "#[deser(%s)] #[deser(%s)]"):
                        yield "%s and %s on %s" % (a, b, pos), "twice:%s:%s" % (pos, k), BOTH, text.replace("@", w % (a, b)), text.replace("@", "#[deser(%s)]" % a)
                    if pos in VALID and VALID[pos].split()[0] != k and "flatten" != k:
                        w = "#[deser(%s, %s, %s)]" % (a, VALID[pos], b)
                        yield "%s and %s on %s" % (a, b, pos), "twice:%s:%s" % (pos, k), BOTH, text.replace("@", w), text.replace("@", "#[deser(%s)]" % a)
        if "rename_all" in valid:
            for st in STYLES:
                yield "the style %r on %s" % (st, pos), "style:%s" % pos, BOTH, text.replace("@", '#[deser(rename_all = "%s")]' % st), text.replace("@", '#[deser(rename_all = "snake_case")]')
        for k in ("default", "skip_serializing_if"):
            if "s" in valid.get(k, ""):
                for p in PATHS:
                    yield '%s = "%s" on %s' % (k, p, pos), "path:%s:%s" % (pos, k), BOTH, text.replace("@", '#[deser(%s = "%s")]' % (k, p)), text.replace("@", '#[deser(%s = "%s")]' % (k, value(pos, k)))
        if "flatten" in valid:
            for name, (a, b) in CONTRA.items():
                for w in ("#[deser(%s, %s)]" % (a, b), "#[deser(%s, %s)]" % (b, a), "#[deser(%s)] #[deser(%s)]" % (a, b), "#[deser(%s)] #[deser(%s)]" % (b, a)):
                    yield "%s on %s" % (name, pos), "contradiction:%s" % name, BOTH, text.replace("@", w), text.replace("@", "#[deser(%s)]" % a)
    for name, fields in DUP_STRUCT.items():
        twin = re.sub(r'(rename|alias) = "[a-zA-Z-]*"', Count('\\1 = "unique%d"'), fields)
        for style in ("", '#[deser(rename_all = "snake_case")] '):
            yield "one name for %s" % name, "duplicate:struct", ("Deserialize",), "%sstruct S { %s }" % (style, fields), "struct S { %s }" % twin
    for style, fields in DUP_STYLED.items():
        yield "one name twice by the style %s" % style, "duplicate:struct-style", ("Deserialize",), '#[deser(rename_all = "%s")] struct S { %s }' % (style, fields), "struct S { %s }" % fields
    for name, vs in DUP_ENUM.items():
        twin = re.sub(r'(rename|alias) = "[a-zA-Z-]*"', Count('\\1 = "unique%d"'), vs)
        for style in ("", '#[deser(rename_all = "PascalCase")] '):
            yield "one name for %s" % name, "duplicate:enum", ("Deserialize",), "%senum S { %s }" % (style, vs), "enum S { %s }" % twin
    for style, vs in DUP_ENUM_STYLED.items():
        yield "one name twice by the style %s" % style, "duplicate:enum-style", ("Deserialize",), '#[deser(rename_all = "%s")] enum S { %s }' % (style, vs), "enum S { %s }" % vs
    for enum in (False, True):
        for text, twin, name in pairs(enum):
            yield name, "duplicate:%s" % ("enum" if enum else "struct"), ("Deserialize",), text, twin
    for name, text in SHAPES.items():
        yield name, "shape:" + name, BOTH, text, "struct S { a: u8 }"


def pairs(enum):
    """two fields or variants with every mixture of names, one of which they share"""
    confs = [(r, a) for r in (0, 1) for a in (0, 1, 2)]
    ids = ("A", "B") if enum else ("a", "b")

    def item(i, conf, names):
        attrs = []
        if conf[0]:
            attrs.append('rename = "%s"' % names[0])
        attrs += ['alias = "%s"' % n for n in names[1:]]
        return ("#[deser(%s)] " % ", ".join(attrs) if attrs else "") + ids[i] + ("" if enum else ": u8")

    for c1 in confs:
        for c2 in confs:
            n1 = ["r1" if c1[0] else ids[0]] + ["a1%d" % k for k in range(c1[1])]
            n2 = ["r2" if c2[0] else ids[1]] + ["a2%d" % k for k in range(c2[1])]
            for i in range(len(n1)):
                for j in range(len(n2)):
                    m1, m2 = list(n1), list(n2)
                    if j or c2[0]:
                        m2[j] = m1[i]
                    elif i or c1[0]:
                        m1[i] = m2[j]
                    else:
                        continue
                    for mid in ("", "M, " if enum else "m: u8, "):
                        fmt = "enum S { %s, %s%s }" if enum else "struct S { %s, %s%s }"
                        yield fmt % (item(0, c1, m1), mid, item(1, c2, m2)), fmt % (item(0, c1, n1), mid, item(1, c2, n2)), "one name for %s of the first and %s of the second" % (("the name", "an alias")[i > 0], ("the name", "an alias")[j > 0])


class Count:
    def __init__(self, fmt):
        self.fmt = fmt
        self.n = 0

    def __call__(self, m):
        self.n += 1
        return m.expand(self.fmt.replace("%d", str(self.n)))


def check_C19(rep, tier):
    lib = witness.Lib()
    items = []
    twins = {}
    for name, key, derives, bad, good in fails():
        for d in derives:
            items.append((name, key, d, bad, good))
            twins.setdefault((d, good), None)
    tl = list(twins)
    res = witness.accepted(lib, [("", "%s#[derive(%s)] %s" % (PRE, d, g)) for d, g in tl], "twins")
    for t, r in zip(tl, res):
        twins[t] = r
    rep.inc("twins which must compile", len(tl))
    live = [i for i in items if not twins[(i[2], i[4])]]
    for (d, g), r in twins.items():
        if r:
            rep.notes["the twin does not compile: derive(%s) %s: %s" % (d, g, r[0][1])] = 1
    rep.inc("witnesses without a compiling twin", len(items) - len(live))
    res = witness.rejected(lib, [("", "%s#[derive(%s)] %s" % (PRE, i[2], i[3])) for i in live], "bad")
    for (name, key, d, bad, good), r in zip(live, res):
        rep.inc("witnesses which must not compile")
        rep.inc("witnesses: " + key.split(":")[0])
        if not r:
            rep.add("C19:%s:%s" % (key, d), "derive(%s) accepts %s" % (d, name), "#[derive(%s)] %s" % (d, bad))
    rep.sample("rejected: " + "; ".join(sorted({r[0][1] for r in res if r}))[:600])
    witness.clean()
    return dict(
        explanation="Compile-fail witnesses against the derives of the current tree: every attribute in every form at every position, every duplicated or contradictory combination, every way to use a name twice and every unsupported shape must be rejected by the compiler; the twin of each, without the offending part, must compile.",
        coverage=dict(rule="a witness which compiles is a violation; a witness counts only if its twin compiles"),
        assumptions=["the derives look at attributes one by one: the enumerated positions, forms and combinations stand for all"],
    )


# ------------------------------------------------------------------ C20
# what every witness of C20 can use; it names nothing by `use`
HELP = """
pub struct OnlySer(pub u8);
impl ::deser::Serialize for OnlySer { fn serialize(&self, _: &::deser::ser::SerializerState) -> ::std::result::Result<::deser::ser::Chunk<'_>, ::deser::Error> { ::std::result::Result::Ok(::deser::ser::Chunk::Atom(::deser::Atom::Null)) } }
pub struct OnlyDe(pub u8);
impl ::deser::Deserialize for OnlyDe { fn deserialize_into(_: &mut ::std::option::Option<Self>) -> ::deser::de::SinkHandle<'_> { ::deser::de::SinkHandle::null() } }
fn is_ser<T: ::deser::Serialize + ?Sized>() {}
fn is_de<T: ::deser::Deserialize>() {}
"""
B = "#[derive(::deser::Serialize, ::deser::Deserialize)]"
SE = "#[derive(::deser::Serialize)]"
DE = "#[derive(::deser::Deserialize)]"
ALLD = "skip_serializing_optionals"
# every kind of code the derives generate
ALL_ATTRS = """
@ #[deser(rename = "N", rename_all = "camelCase", default, skip_serializing_optionals)]
pub struct Full { plain_one: ::std::primitive::u8, opt: ::std::option::Option<::std::primitive::u8>, #[deser(default)] d: ::std::primitive::u8, #[deser(default = "self::fd", alias = "x", alias = "y")] e: ::std::primitive::u8, #[deser(skip_serializing_if = "self::fs")] f: ::std::primitive::u8, #[deser(flatten)] g: Inner, #[deser(flatten, skip_serializing_if = "self::fi")] h: Inner2 }
@ pub struct Inner { q: ::std::primitive::u8, r: ::std::option::Option<::std::string::String> }
@ pub struct Inner2 { s: ::std::vec::Vec<::std::primitive::u8> }
@ #[deser(default = "self::mk2")] pub struct Second { a: ::std::primitive::u8, b: ::std::option::Option<::std::primitive::u8> }
@ #[deser(rename_all = "SCREAMING-KEBAB-CASE")] pub enum En { One, #[deser(rename = "2", alias = "zwei")] Two, Three }
@ pub struct New(::std::vec::Vec<::std::primitive::u16>);
@ pub struct NewG<T>(T);
@ pub struct Gen<T, U> { t: T, #[deser(default)] u: ::std::option::Option<U> }
@ pub struct Empty {}
pub fn fd() -> ::std::primitive::u8 { 1 }
pub fn fs(_: &::std::primitive::u8) -> ::std::primitive::bool { false }
pub fn fi(_: &Inner2) -> ::std::primitive::bool { false }
pub fn mk2() -> Second { Second { a: 1, b: ::std::option::Option::None } }
impl ::std::default::Default for Full { fn default() -> Self { Full { plain_one: 0, opt: ::std::option::Option::None, d: 0, e: 0, f: 0, g: Inner { q: 0, r: ::std::option::Option::None }, h: Inner2 { s: ::std::vec::Vec::new() } } } }
"""
GENERICS = {
    "a type parameter": (B + " struct S<T> { t: T }", "S<u8>"),
    "a type parameter only used in a container": (B + " struct S<T> { t: Vec<Option<T>> }", "S<u8>"),
    "two type parameters": (B + " struct S<T, U> { t: T, u: U }", "S<u8, String>"),
    "a bound": (B + " struct S<T: Clone> { t: T }", "S<u8>"),
    "a bound with a path": (B + " struct S<T: ::std::fmt::Debug + ::std::clone::Clone> { t: T }", "S<u8>"),
    "a where clause": (B + " struct S<T> where T: Clone { t: T }", "S<u8>"),
    "a where clause about another type": (B + " struct S<T> where Vec<T>: Clone, T: 'static { t: T }", "S<u8>"),
    "a where clause with an associated type": (B + " struct S<T> where T: Iterator, T::Item: ::deser::Serialize + ::deser::Deserialize { t: T::Item, #[deser(skip_serializing_if = \"never\", default = \"none\")] u: Option<T::Item> } fn never<T>(_: &T) -> bool { false } fn none<T>() -> Option<T> { None }", None),
    "a const parameter": (SE + " struct S<const N: usize> { t: [u8; N] }", "S<3>"),
    "a const parameter in lower case": (SE + " #[allow(non_upper_case_globals)] struct S<const len: usize> { t: [u8; len] }", "S<3>"),
    "a newtype with a const parameter in lower case": (SE + " #[allow(non_upper_case_globals)] struct S<const len_of_it: usize>([u8; len_of_it]);", "S<3>"),
    "a flattened struct with a const parameter": (B + " struct S<const Nn: usize> { #[deser(flatten)] t: I<Nn> } " + B + " struct I<const Nn: usize> { x: u8 }", "S<3>"),
    "a type parameter in lower case": (B + " #[allow(non_camel_case_types)] struct S<elem_t> { t: elem_t }", "S<u8>"),
    "a long lifetime": (SE + " struct S<'input_of_it, 'B> { t: &'input_of_it str, u: &'B str }", "S<'static, 'static>"),
    "a const parameter with a block default": (B + " struct S<const N: usize = { 1 + 2 }> { t: u8 }", "S"),
    "a const parameter of a type with a where clause": (SE + " struct S<T, const N: usize> where [T; N]: Clone { t: [T; N] }", "S<u8, 3>"),
    "a parameter with attributes": (B + " struct S<#[allow(dead_code)] T> { t: T }", "S<u8>"),
    "a raw lifetime bound by several": (SE + " struct S<'a, 'b: 'a, 'c: 'a + 'b> { t: &'a u8, u: &'b u8, v: &'c u8 }", "S<'static, 'static, 'static>"),
    "many parameters": (B + " struct S<A, B: Clone, C, D, E2> where C: Clone { a: A, b: B, c: C, d: D, e: E2 }", "S<u8, u8, u8, u8, u8>"),
    "a bound on a parameter by another": (B + " struct S<T, U: Into<T>> where T: From<U> { t: T, u: U }", "S<u8, u8>"),
    "a function pointer in a where clause": (B + " struct S<T> where fn(T): Copy { t: T }", "S<u8>"),
    "a const parameter with a type parameter": (SE + " struct S<T, const N: usize> { t: [T; N], u: T }", "S<u8, 3>"),
    "a const parameter without use": (B + " struct S<const N: usize> { t: u8 }", "S<3>"),
    "a const parameter of another type": (B + " struct S<const B: bool, const C: char> { t: u8 }", "S<true, 'x'>"),
    "a const parameter and a lifetime": (SE + " struct S<'a, const N: usize> { t: &'a [u8; N] }", "S<'static, 3>"),
    "a lifetime": (SE + " struct S<'a> { t: &'a str }", "S<'static>"),
    "two lifetimes": (SE + " struct S<'a, 'b> { t: &'a str, u: &'b [u8] }", "S<'static, 'static>"),
    "a lifetime bound": (SE + " struct S<'a, 'b: 'a> { t: &'a &'b u8 }", "S<'static, 'static>"),
    "a lifetime and a type parameter": (SE + " struct S<'a, T> { t: &'a T }", "S<'static, u8>"),
    "a lifetime bound of a type parameter": (SE + " struct S<'a, T: 'a> { t: &'a T, u: T }", "S<'static, u8>"),
    "a lifetime named as in the derives": (SE + " struct S<'a, '__b> { t: &'a str, u: &'__b str }", "S<'static, 'static>"),
    "a static bound": (B + " struct S<T: 'static> { t: T }", "S<u8>"),
    "a default of a type parameter": (B + " struct S<T = u8> { t: T }", "S"),
    "a default of a const parameter": (B + " struct S<const N: usize = 3> { t: u8 }", "S"),
    "a default of a type parameter with a bound": (B + " struct S<T: Clone = u8, U = T> { t: T, u: U }", "S"),
    "a higher ranked bound": (B + " struct S<T> where for<'x> &'x T: Clone { t: T }", "S<u8>"),
    "a newtype of a type parameter": (B + " struct S<T>(T);", "S<u8>"),
    "a newtype with a where clause": (B + " struct S<T>(T) where T: Clone;", "S<u8>"),
    "a newtype with a bound": (B + " struct S<T: Clone>(Vec<T>);", "S<u8>"),
    "a newtype with a const parameter": (SE + " struct S<const N: usize>([u8; N]);", "S<3>"),
    "a newtype with a lifetime": (SE + " struct S<'a>(&'a str);", "S<'static>"),
    "a newtype with lifetimes and types": (SE + " struct S<'a, T: 'a>(&'a T);", "S<'static, u8>"),
    "a newtype with a default of a type parameter": (B + " struct S<T = u8>(T);", "S"),
    "flattened type parameter": (B + " struct S<T> { a: u8, #[deser(flatten)] t: T } " + B + " struct I { x: u8 }", "S<I>"),
    "two flattened type parameters": (B + " struct S<T, U> { #[deser(flatten)] t: T, #[deser(flatten)] u: U } " + B + " struct I { x: u8 }", "S<I, I>"),
    "a flattened generic struct": (B + " struct S<T> { #[deser(flatten)] t: I<T> } " + B + " struct I<T> { x: T }", "S<u8>"),
    "a flattened reference": (SE + " struct S<'a> { #[deser(flatten)] t: &'a I } " + SE + " struct I { x: u8 }", "S<'static>"),
    "a flattened box": (B + " struct S { #[deser(flatten)] t: Box<I> } " + B + " struct I { x: u8 }", "S"),
    "a field default of a type parameter": (B + " struct S<T: Default> { #[deser(default)] t: T }", "S<u8>"),
    "a field default function of a type parameter": (B + " struct S<T> { #[deser(default = \"mk\")] t: Vec<T> } fn mk<T>() -> Vec<T> { Vec::new() }", "S<u8>"),
    "a field default path with generics": (B + " struct S<T> { #[deser(default = \"Vec::<T>::new\")] t: Vec<T> }", "S<u8>"),
    "a field default path of a trait": (B + " struct S { #[deser(default = \"<u8 as Default>::default\")] t: u8 }", "S"),
    "a container default of a generic type": (B + " #[deser(default)] struct S<T> where T: Default { t: T, u: u8 } impl<T: Default> Default for S<T> { fn default() -> Self { S { t: T::default(), u: 1 } } }", "S<u8>"),
    "a container default function of a generic type": (B + " #[deser(default = \"mk\")] struct S<T: Default> { t: T, u: u8 } fn mk<T: Default>() -> S<T> { S { t: T::default(), u: 1 } }", "S<u8>"),
    "a condition on a type parameter": (B + " struct S<T> { #[deser(skip_serializing_if = \"never\")] t: T } fn never<T>(_: &T) -> bool { false }", "S<u8>"),
    "a condition path with generics": (B + " struct S<T> { #[deser(skip_serializing_if = \"Option::<T>::is_none\")] t: Option<T> }", "S<u8>"),
    "a condition path of a slice": (B + " struct S<T> { #[deser(skip_serializing_if = \"<[T]>::is_empty\")] t: Vec<T> }", "S<u8>"),
    "a recursive type": (B + " struct S { t: Option<Box<S>>, u: Vec<S> }", "S"),
    "a recursive generic type": (B + " struct S<T> { t: T, u: Option<Box<S<T>>> }", "S<u8>"),
    "mutually recursive types": (B + " struct S { t: Option<Box<T>> } " + B + " struct T { s: Vec<S> }", "S"),
    "a recursive newtype": (B + " struct S(Vec<S>);", "S"),
    "tuples, maps and sets": (SE + " struct S<K, V> { a: (K, V), b: ::std::collections::BTreeMap<K, V>, c: ::std::collections::BTreeSet<K> }", None),
    "a field of every built-in type": (B + " struct S { a: (), b: bool, c: char, d: i8, e: u64, f: f32, g: String, h: Vec<u8>, i: Option<i64>, j: Box<u8>, k: ::std::collections::BTreeMap<String, u8>, l: ::std::collections::HashMap<String, u8>, m: ::std::collections::BTreeSet<u8>, o: isize }", None),
    "a pub(crate) field": (B + " pub struct S { pub(crate) a: u8, pub b: u8, c: u8 }", "S"),
    "doc comments and other attributes": (B + " /** doc */ #[allow(dead_code)] pub struct S { /** doc */ #[allow(dead_code)] a: u8, /// line\n b: u8 }", "S"),
    "an enum with discriminants": (B + " #[derive(Clone, Copy)] #[repr(u8)] enum S { A = 1, B = 7, C }", "S"),
    "an enum with one variant": (B + " enum S { A }", "S"),
    "an enum with documented variants": (B + " enum S { /** doc */ #[allow(dead_code)] A, /// b\n B }", "S"),
    "a non exhaustive enum": (B + " #[non_exhaustive] pub enum S { A, B }", "S"),
    "a packed copy": (B + " #[repr(C)] struct S { a: u8, b: u16 }", "S"),
    "a struct without fields": (B + " struct S {}", "S"),
    "a generic struct in a macro": ("macro_rules! m { ($n:ident, $t:ty, $f:ident) => { " + B + " struct $n<T> { $f: $t, t: T } } } m!(S, Option<u8>, foo);", "S<u8>"),
    "an enum in a macro": ("macro_rules! m { ($n:ident, $($v:ident),*) => { " + B + " enum $n { $($v),* } } } m!(S, A, B);", "S"),
    "a newtype in a macro": ("macro_rules! m { ($n:ident, $t:ty) => { " + B + " struct $n($t); } } m!(S, Vec<u8>);", "S"),
    "a path in a macro": ("macro_rules! m { ($p:literal) => { " + B + " struct S { #[deser(default = $p)] a: u8 } } } fn mk() -> u8 { 0 } m!(\"mk\");", "S"),
    "a local type": ("fn f() { " + B + " #[deser(rename_all = \"camelCase\")] struct S { a: u8, #[deser(flatten)] i: I } " + B + " struct I { x: u8 } " + B + " enum E { A } " + B + " struct N(u8); is_ser::<S>(); is_de::<S>(); is_ser::<E>(); is_de::<N>(); }", None),
    "a local generic type": ("fn f<T: Clone>(_: T) { " + B + " struct S<U> { a: U } is_ser::<S<u8>>(); is_de::<S<u8>>(); }", None),
    "two types of one name": ("mod a { " + B + " pub struct S { a: u8 } } mod b { " + B + " pub struct S { b: u8 } }", "a::S"),
    "the derives on different lines": ("#[derive(::deser::Serialize)] #[derive(::deser::Deserialize)] #[derive(Clone, Debug, PartialEq, Default)] struct S { a: u8 }", "S"),
    "a function pointer default in another module": ("mod d { pub fn mk() -> u8 { 1 } } " + B + " struct S { #[deser(default = \"d::mk\")] a: u8, #[deser(default = \"self::d::mk\")] b: u8 }", "S"),
}
MINIMAL = {
    "serialize a parameter": (SE + " struct S<T> { t: T }", "is_ser::<S<OnlySer>>();"),
    "serialize two parameters": (SE + " struct S<T, U> { t: T, u: Vec<U> }", "is_ser::<S<OnlySer, OnlySer>>();"),
    "serialize a newtype": (SE + " struct S<T>(T);", "is_ser::<S<OnlySer>>();"),
    "serialize a flattened parameter": (SE + " struct S<T> { #[deser(flatten)] t: T }", "is_ser::<S<OnlySer>>();"),
    "serialize with conditions": (SE + " #[deser(skip_serializing_optionals)] struct S<T> { #[deser(skip_serializing_if = \"no\")] t: T } fn no<T>(_: &T) -> bool { false }", "is_ser::<S<OnlySer>>();"),
    "serialize with defaults": (SE + " #[deser(default)] struct S<T> { #[deser(default)] t: T, u: T }", "is_ser::<S<OnlySer>>();"),
    "serialize both of a type": (B + " struct S<T> { t: T }", "is_ser::<S<OnlySer>>(); is_de::<S<OnlyDe>>();"),
    "both of a newtype": (B + " struct S<T>(T);", "is_ser::<S<OnlySer>>(); is_de::<S<OnlyDe>>();"),
    "both of a flattened parameter": (B + " struct S<T> { #[deser(flatten)] t: T }", "is_ser::<S<OnlySer>>(); is_de::<S<OnlyDe>>();"),
    "deserialize a parameter": (DE + " struct S<T> { t: T }", "is_de::<S<OnlyDe>>();"),
    "deserialize two parameters": (DE + " struct S<T, U> { t: Box<T>, u: Vec<U> }", "is_de::<S<OnlyDe, OnlyDe>>();"),
    "deserialize a newtype": (DE + " struct S<T>(T);", "is_de::<S<OnlyDe>>();"),
    "deserialize a flattened parameter": (DE + " struct S<T> { #[deser(flatten)] t: T, u: Option<T> }", "is_de::<S<OnlyDe>>();"),
    "deserialize with a default function": (DE + " struct S<T> { #[deser(default = \"mk\")] t: Option<T> } fn mk<T>() -> Option<T> { None }", "is_de::<S<OnlyDe>>();"),
    "deserialize with defaults of other types": (DE + " struct S<T> { #[deser(default)] t: Vec<T>, #[deser(default)] o: Option<T> }", "is_de::<S<OnlyDe>>();"),
    "deserialize with a container default": (DE + " #[deser(default)] struct S<T> { t: Vec<T>, u: u8 } impl<T> Default for S<T> { fn default() -> Self { S { t: Vec::new(), u: 0 } } }", "is_de::<S<OnlyDe>>();"),
    "deserialize with a container default function": (DE + " #[deser(default = \"mk\")] struct S<T> { t: Option<T>, u: u8 } fn mk<T>() -> S<T> { S { t: None, u: 0 } }", "is_de::<S<OnlyDe>>();"),
    "an unused where clause does not matter": (DE + " struct S<T> where T: Sized { t: T }", "is_de::<S<OnlyDe>>();"),
    "not static": (SE + " struct S<'a, T> { t: &'a T }", "fn f<'a>(x: &'a u8) { fn g<T: ::deser::Serialize>(_: T) {} g(S { t: &x }); }"),
    "not static in a newtype": (SE + " struct S<'a, T>(&'a T);", "fn f<'a>(x: &'a u8) { fn g<T: ::deser::Serialize>(_: T) {} g(S(&x)); }"),
    "generic over both": (B + " struct S<T> { t: T } fn f<T: ::deser::Serialize>() { is_ser::<S<T>>() } fn g<T: ::deser::Deserialize>() { is_de::<S<T>>() }", ""),
    "generic newtypes over both": (B + " struct S<T>(T); fn f<T: ::deser::Serialize>() { is_ser::<S<T>>() } fn g<T: ::deser::Deserialize>() { is_de::<S<T>>() }", ""),
}
DEMANDED = {  # what must not compile: the trait being derived is demanded
    "serialize without Serialize": (SE + " struct S<T> { t: T }", "is_ser::<S<OnlyDe>>();", "is_ser::<S<OnlySer>>();"),
    "deserialize without Deserialize": (DE + " struct S<T> { t: T }", "is_de::<S<OnlySer>>();", "is_de::<S<OnlyDe>>();"),
    "serialize a newtype without Serialize": (SE + " struct S<T>(T);", "is_ser::<S<OnlyDe>>();", "is_ser::<S<OnlySer>>();"),
    "deserialize a newtype without Deserialize": (DE + " struct S<T>(T);", "is_de::<S<OnlySer>>();", "is_de::<S<OnlyDe>>();"),
    "serialize a flattened one without Serialize": (SE + " struct S<T> { #[deser(flatten)] t: T }", "is_ser::<S<OnlyDe>>();", "is_ser::<S<OnlySer>>();"),
}
RAWID = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split()
FIELD_NAMES = "state __state index data slot key sink value handle __handle __key __index nested_emitter nested_emitter_exhausted field_a a name next map finish atom seq next_key next_value value_for_key descriptor expecting serialize deserialize_into default __default other __other s e r __Sink __Descriptor Some None Ok Err".split()
UNI = ["gr\u00f6\u00dfe", "\u540d\u524d", "\u03b1\u03b2\u03b3", "\u00e9t\u00e9_\u00e9", "_\u00fc", "\u0438\u043c\u044f"]
TYPE_NAMES = "Option Some None Ok Err Result String Vec Box Default Cow Sink Serialize Deserialize Descriptor SinkHandle OwnedSink Atom Chunk Error ErrorKind SerializeHandle StructEmitter SerializerState DeserializerState StrCow Self_ Slot Emitter Sized Clone Copy str u8 usize bool deser std core alloc __Sink_ _Foo r#type r#struct r#fn Gr\u00f6\u00dfe T U S E".split()
SHADOW = {
    "own types of the prelude's names": "pub struct Option; pub struct Some; pub struct None; pub struct Ok; pub struct Err; pub struct Result; pub struct String; pub struct Vec; pub struct Box; pub struct Default_; pub struct ToString; pub struct Sized_;",
    "own generic types of the prelude's names": "pub struct Option<T>(T); pub struct Result<T>(T); pub struct Vec<T>(T); pub struct Box<T>(T); pub enum Cow { A }",
    "own traits of the prelude's names": "pub trait Default { fn default() -> Self; } pub trait Into {} pub trait From {} pub trait Clone {} pub trait Iterator { fn next(&self) {} } pub trait AsRef {} pub trait AsMut {} pub trait ToString {} pub trait Drop {} pub trait Fn {} pub trait Send {} pub trait Sync {}",
    "own types of deser's names": "pub struct Serialize; pub struct Deserialize; pub struct Sink; pub struct SinkHandle; pub struct SerializeHandle; pub struct Chunk; pub struct Atom; pub struct Error; pub struct ErrorKind; pub struct Descriptor; pub struct OwnedSink; pub struct StructEmitter; pub struct SerializerState; pub struct DeserializerState; pub struct StrCow;",
    "own traits of deser's names": "pub trait Serialize {} pub trait Deserialize {} pub trait Sink {} pub trait Descriptor {} pub trait StructEmitter {}",
    "own modules of the crates' names": "pub mod std { } pub mod core { } pub mod alloc { } pub mod deser { } pub mod ser { } pub mod de { } pub mod __derive { }",
    "own types of the primitives' names": "#[allow(non_camel_case_types)] pub struct str; #[allow(non_camel_case_types)] pub struct usize; #[allow(non_camel_case_types)] pub struct bool; #[allow(non_camel_case_types)] pub struct u8; #[allow(non_camel_case_types)] pub struct u64;",
    "own aliases of the primitives' names": "#[allow(non_camel_case_types)] pub type str = (); #[allow(non_camel_case_types)] pub type usize = (); #[allow(non_camel_case_types)] pub type bool = ();",
    "own macros": "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! format { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! matches { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! panic { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! unreachable { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! assert { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! debug_assert { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! try_ { () => { } } macro_rules! stringify { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! write { ($($t:tt)*) => { compile_error!(\"no\") } } macro_rules! concat { ($($t:tt)*) => { compile_error!(\"no\") } }",
    "own functions and constants": "pub fn drop<T>(_: T) {} pub fn transmute() {} pub fn default() {} pub fn serialize() {} #[allow(non_upper_case_globals)] pub const index: () = (); #[allow(non_upper_case_globals)] pub const state: () = (); #[allow(non_upper_case_globals)] pub const value: () = (); #[allow(non_upper_case_globals)] pub const slot: () = (); #[allow(non_upper_case_globals)] pub const key: () = ();",
    "own constants of the generated names": "#[allow(non_upper_case_globals)] pub const s: () = (); #[allow(non_upper_case_globals)] pub const val: () = (); #[allow(non_upper_case_globals)] pub const e: () = (); #[allow(non_upper_case_globals)] pub const x: () = ();",
    "own statics of the generated names": "#[allow(non_upper_case_globals)] pub static data: () = (); #[allow(non_upper_case_globals)] pub static handle: () = ();",
    "own types of short names": "pub struct T_; pub struct Slot; pub struct SlotWrapper; pub struct Emitter; pub struct Wrapper; pub struct Inner_;",
    "a glob import": "mod other { pub struct Option; pub struct Result; pub struct String; pub struct Box; pub struct Cow; pub trait Default {} } #[allow(unused_imports)] use self::other::*;",
    "blanket traits with the methods' names": "pub trait Names { fn serialize(&self) {} fn finish(&self) {} fn is_optional(&self) {} fn descriptor(&self) {} fn map(&self) {} fn name(&self) {} fn value_for_key(&self) {} fn unexpected_atom(&self) {} } impl<T> Names for ::std::option::Option<T> {} impl<T> Names for ::std::vec::Vec<T> {} impl Names for ::std::primitive::u8 {} impl Names for ::std::string::String {}",
    "imported traits of std": "#[allow(unused_imports)] use ::std::borrow::{Borrow, BorrowMut}; #[allow(unused_imports)] use ::std::any::Any; #[allow(unused_imports)] use ::std::fmt::Write; #[allow(unused_imports)] use ::std::convert::TryFrom;",
    "imported traits of deser": "#[allow(unused_imports)] use ::deser::ser::*; #[allow(unused_imports)] use ::deser::de::*; #[allow(unused_imports)] use ::deser::*;",
    "an own result alias": "pub type Result<T> = ::std::result::Result<T, ()>;",
    "nothing": "",
}
CRATES_HEAD = {
    "without the prelude": "#![no_implicit_prelude]\n",
    "without std": "#![no_std]\nextern crate std;\n",
    "an own module named deser": "pub mod deser {}\n",
    "an own module named std": "pub mod std {}\npub mod core {}\n",
    "an own macro in the crate": "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"no\") } }\n",
}


def passes():
    """(name, key, crate head, module text)"""
    for n, (text, ty) in GENERICS.items():
        use = ""
        if ty:
            if "::deser::Serialize" in text.split(" struct")[0].split(" enum")[0] or B in text or SE in text or "Serialize)]" in text:
                use += "is_ser::<%s>(); " % ty
            if B in text or DE in text or "Deserialize)]" in text:
                use += "is_de::<%s>(); " % ty
        yield n, "generics", "", "%s%s\nfn u() { %s }" % (HELP, text, use)
    for n, (text, use) in MINIMAL.items():
        if use is None or use.startswith("fn"):
            yield n, "minimal", "", "%s%s\n%s" % (HELP, text, use or "")
        else:
            yield n, "minimal", "", "%s%s\nfn u() { %s }" % (HELP, text, use)
    for der in (B, SE, DE):
        for n, text in SHADOW.items():
            yield n, "scope", "", "%s\n%s" % (text, ALL_ATTRS.replace("@", der))
        yield "unused", "scope", "", ALL_ATTRS.replace("@", der)
    for n, head in CRATES_HEAD.items():
        yield n, "crate", head, ALL_ATTRS.replace("@", B)
    low = [x for x in RAWID if x not in ("crate", "super", "self", "Self", "true_")]
    yield "keywords as fields", "raw", "", "%s%s struct S { %s }" % (HELP, B, ", ".join("r#%s: u8" % x for x in low))
    for st in ("camelCase", "PascalCase", "SCREAMING-KEBAB-CASE", "lowercase"):
        yield "keywords as fields in %s" % st, "raw", "", "%s%s #[deser(rename_all = \"%s\")] struct S { %s }" % (HELP, B, st, ", ".join("r#%s: u8" % x for x in low))
    yield "keywords as flattened fields", "raw", "", "%s%s struct S { #[deser(flatten)] r#type: I, #[deser(default)] r#fn: u8, #[deser(skip_serializing_if = \"Option::is_none\")] r#if: Option<u8>, #[deser(default = \"r#match\")] r#as: u8 } %s struct I { r#in: u8 } fn r#match() -> u8 { 0 }" % (HELP, B, B)
    yield "keywords as fields with a container default", "raw", "", "%s%s #[deser(default)] struct S { r#type: u8, r#fn: Option<u8> } impl Default for S { fn default() -> S { S { r#type: 0, r#fn: None } } }" % (HELP, B)
    yield "keywords as variants", "raw", "", "%s#[allow(non_camel_case_types)] %s enum S { %s }" % (HELP, B, ", ".join("r#%s" % x for x in low))
    for st in ("snake_case", "camelCase", "UPPERCASE", "kebab-case"):
        yield "keywords as variants in %s" % st, "raw", "", "%s#[allow(non_camel_case_types)] %s #[deser(rename_all = \"%s\")] enum S { %s }" % (HELP, B, st, ", ".join("r#%s" % x for x in low))
    for k in ("struct", "match", "fn", "dyn"):
        yield "the keyword %s as a struct" % k, "raw", "", "%s#[allow(non_camel_case_types)] %s struct r#%s { a: u8 }" % (HELP, B, k)
        yield "the keyword %s as an enum" % k, "raw", "", "%s#[allow(non_camel_case_types)] %s enum r#%s { A, B }" % (HELP, B, k)
        yield "the keyword %s as a newtype" % k, "raw", "", "%s#[allow(non_camel_case_types)] %s struct r#%s(u8);" % (HELP, B, k)
        yield "the keyword %s as a type parameter" % k, "raw", "", "%s#[allow(non_camel_case_types)] %s struct S<r#%s> { a: r#%s }" % (HELP, B, k, k)
    for n in FIELD_NAMES:
        yield "the field %s" % n, "field-names", "", "%s#[allow(non_snake_case)] %s struct S { %s: u8, zz: Option<u8> }" % (HELP, B, n)
        yield "the flattened field %s" % n, "field-names", "", "%s#[allow(non_snake_case)] %s #[deser(skip_serializing_optionals)] struct S { #[deser(flatten)] %s: I, zz: Option<u8> } %s struct I { x: u8 }" % (HELP, B, n, B)
        yield "the defaulted field %s" % n, "field-names", "", "%s#[allow(non_snake_case)] %s #[deser(default)] struct S { %s: u8, #[deser(default)] zz: u8 } impl ::std::default::Default for S { fn default() -> S { S { %s: 1, zz: 2 } } }" % (HELP, B, n, n)
    yield "all of these fields", "field-names", "", "%s#[allow(non_snake_case)] %s struct S { %s }" % (HELP, B, ", ".join("%s: u8" % n for n in FIELD_NAMES))
    yield "all of these variants", "field-names", "", "%s#[allow(non_camel_case_types)] %s enum S { %s }" % (HELP, B, ", ".join(FIELD_NAMES))
    for n in UNI:
        yield "the field %s" % n, "non-ascii", "", "%s%s struct S { %s: u8, b: Option<u8> }" % (HELP, B, n)
        for st in ("lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"):
            yield "the field %s in %s" % (n, st), "non-ascii", "", "%s%s #[deser(rename_all = \"%s\")] struct S { %s: u8, b: Option<u8> }" % (HELP, B, st, n)
            yield "the variant %s in %s" % (n, st), "non-ascii", "", "%s#[allow(non_camel_case_types)] %s #[deser(rename_all = \"%s\")] enum S { %s, B }" % (HELP, B, st, n)
        yield "the type %s" % n, "non-ascii", "", "%s#[allow(non_camel_case_types)] %s struct %s { b: u8 }" % (HELP, B, n)
    yield "non-ascii renames", "non-ascii", "", HELP + B + " #[deser(rename = \"gr\u00f6\u00dfe\")] struct S { #[deser(rename = \"\u540d \\u{1f600}\\n\\\"\", alias = \"\u00e9\")] a: u8 } " + B + " enum E { #[deser(rename = \"\u540d\", alias = \"{}\")] A }"
    for n in TYPE_NAMES:
        al = "#[allow(non_camel_case_types)] "
        P_ = "::std::primitive::u8"
        yield "a struct named %s" % n, "type-names", "", "%s%s pub struct %s { a: %s, #[deser(flatten)] b: In } %s pub struct In { x: %s }" % (al, B, n, P_, B, P_)
        yield "an enum named %s" % n, "type-names", "", "%s%s pub enum %s { A, B }" % (al, B, n)
        yield "a newtype named %s" % n, "type-names", "", "%s%s pub struct %s(::std::vec::Vec<%s>);" % (al, B, n, P_)
        if "#" not in n and n != "deser":
            yield "a type parameter named %s" % n, "type-names", "", "%s%s pub struct Ss<%s> { a: %s, b: ::std::option::Option<%s> }" % (al, B, n, n, n)
            yield "a variant named %s" % n, "type-names", "", "%s%s pub enum Ee { %s, B_ }" % (al, B, n)


def check_C20(rep, tier):
    lib = witness.Lib()
    items = list(passes())
    res = witness.accepted(lib, [(h, t) for _, _, h, t in items], "good")
    for (name, key, head, text), r in zip(items, res):
        rep.inc("witnesses which must compile")
        rep.inc("witnesses: " + key)
        if r:
            rep.add("C20:%s:%s" % (key, name), "a derive does not compile: %s: %s" % (name, r[0][1]), text + "\n\n" + "\n".join(e[3] for e in r[:3]))
        else:
            rep.sample("compiles: %s (%s)" % (name, key))
    bad = [(n, h, b, g) for n, (h, b, g) in DEMANDED.items()]
    twins = witness.accepted(lib, [("", "%s%s fn u() { %s }" % (HELP, h, g)) for n, h, b, g in bad], "twins")
    res = witness.rejected(lib, [("", "%s%s fn u() { %s }" % (HELP, h, b)) for n, h, b, g in bad], "bad")
    for (n, h, b, g), t, r in zip(bad, twins, res):
        if t:
            continue
        rep.inc("witnesses which must not compile")
        if not r:
            rep.add("C20:demanded:" + n, "the bound of the derived trait is not demanded: %s" % n, h + b)
    witness.clean()
    return dict(
        explanation="Compile-pass witnesses against the derives of the current tree: generic shapes, minimal bounds, names and scopes of every kind must type-check; using a derived type with a parameter which lacks the derived trait must not.",
        coverage=dict(rule="a witness which the compiler rejects is a violation"),
        assumptions=["the enumerated shapes, names and scopes stand for all of their kind"],
    )
