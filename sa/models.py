"""Models of library functions, by name."""
import re

from engine import MAPS, NATIVE, NIL, UNINIT, UNIT, Call, Fork, N, Panic, Redirect, Stop, UB, Unknown, fl, fval, is_num, pidx
from num import ATOMTY, INF, Dom, add, iv_compl, lin, sub

MODELS = {}
PREFIX = []

NONE = ("E", 0, ())


def some(v):
    return ("E", 1, (v,))


def ok(v=UNIT):
    return ("E", 0, (v,))


def err(v):
    return ("E", 1, (v,))


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def prefix(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f

    return d


# ------------------------------------------------------------------ panics
def m_panic(E, st, c):
    msg = c.name.rsplit("::", 1)[-1]
    a = c.args
    for x in a:
        t = const_text(E, st, x)
        if t:
            msg += ": " + t
            break
    raise Panic(msg)


def const_text(E, st, x):
    try:
        if type(x) is tuple and x and x[0] == "R" and type(x[1]) is tuple and x[1][0] == "k":
            v = E.P.constmem[x[1]]
            if v[0] == "A" and all(type(b) is int for b in v[1]):
                return bytes(v[1]).decode("utf8", "replace")[:80]
    except Exception:
        pass
    return None


def m_ubpanic(E, st, c):
    raise UB("violated precondition of an unsafe function")


for _p in (
    "core::panicking::panic_nounwind",
    "core::panicking::panic_nounwind_fmt",
    "core::panicking::panic_nounwind_nobacktrace",
    "core::panicking::panic_null_pointer_dereference",
    "core::panicking::panic_misaligned_pointer_dereference",
):
    MODELS[_p] = m_ubpanic
prefix(
    "core::panicking::",
    "std::rt::panic_fmt",
    "std::rt::panic_display",
    "std::rt::begin_panic",
    "std::panicking::",
    "std::option::expect_failed",
    "std::option::unwrap_failed",
    "std::result::unwrap_failed",
    "core::slice::index::slice_index_fail",
    "core::slice::index::slice_",
    "core::str::slice_error_fail",
    "std::cell::panic_already",
    "alloc::raw_vec::handle_error",
    "alloc::raw_vec::capacity_overflow",
    "std::alloc::handle_alloc_error",
    "std::thread::local::panic_access_error",
    "std::process::abort",
    "std::process::exit",
    "std::intrinsics::abort",
    "std::vec::Vec::<T, A>::remove::assert_failed",
    "std::vec::Vec::<T, A>::insert::assert_failed",
    "std::vec::Vec::<T, A>::swap_remove::assert_failed",
    "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail",
    "core::num::from_ascii_radix_panic",
)(m_panic)


# ------------------------------------------------------------------ vectors
def getvec(E, st, p):
    if p[0] == "O":
        p = E.expand(st, p)
    if p[0] != "R":
        raise Unknown("vector reference " + p[0])
    v = E.load(st, p[1], p[2])
    return getvecv(E, st, v)


def getvecv(E, st, v):
    if v[0] == "O":
        v = E.expand(st, v)
    # String and other single field wrappers
    while v[0] == "S" and len(v[1]) == 1:
        v = v[1][0]
        if v[0] == "O":
            v = E.expand(st, v)
    if v[0] == "U":
        raise UB("use of an uninitialised vector")
    if v[0] != "V":
        raise Unknown("not a vector: " + v[0])
    return v


def setvec(E, st, p, buf):
    v = E.load(st, p[1], p[2])
    nv = ("V", buf)
    t = v
    depth = 0
    if t[0] == "O" and E.T[t[1]]["path"] == "std::string::String":
        depth = 1
    while t[0] == "S" and len(t[1]) == 1:
        t = t[1][0]
        depth += 1
    for _ in range(depth):
        nv = ("S", (nv,))
    E.store(st, p[1], p[2], nv)


def newbuf(E, st, p, old, content):
    """replaces the buffer of the vector behind p (as a reallocation would)"""
    if old != NIL:
        E.free(st, old, "vector buffer")
    b = E.alloc(st, content, "v")
    setvec(E, st, p, b)
    return b


def append(E, st, cont, vals):
    """content + pieces"""
    k = cont[0]
    if k == "A" and all(not (type(v) is tuple and v and v[0] == "pc") for v in vals):
        return ("A", cont[1] + tuple(vals))
    if k == "HA":
        return ("HA", cont[1], cont[2] + tuple(vals))
    return E.C.append(E, st, cont, vals) if hasattr(E.C, "append") else to_text(cont, vals)


def to_text(cont, vals):
    ps = []
    if cont[0] == "A":
        for b in cont[1]:
            ps.append(("b", b))
    elif cont[0] == "T":
        ps = list(cont[1])
    elif cont[0] == "OA" and cont[1] is None:
        ps = [("pc", "cp", cont[2], 0, cont[3])]
    else:
        raise Unknown("append to " + cont[0])
    for v in vals:
        if type(v) is tuple and v and v[0] == "pc":
            ps.append(v)
        else:
            ps.append(("b", v))
    return ("T", tuple(ps))


@model(
    "std::vec::Vec::<T>::new",
    "<std::vec::Vec<T> as std::default::Default>::default",
    "std::vec::Vec::<T>::with_capacity",
    "std::vec::Vec::<T, A>::new_in",
    "std::vec::Vec::<T, A>::with_capacity_in",
)
def m_vec_new(E, st, c):
    return ("V", NIL)


@model("std::string::String::with_capacity", "std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_string_new(E, st, c):
    return ("S", (("V", NIL),))


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut", "std::vec::Vec::<T, A>::push_within_capacity")
def m_vec_push(E, st, c):
    p, v = c.args
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    if cont[0] == "A" and len(cont[1]) > 400:
        raise Unknown("vector grows without bound")
    n = E.lenof(st, cont)
    b = newbuf(E, st, p, vec[1], append(E, st, cont, (v,)))
    if c.name.endswith("push_mut"):
        return ("R", b, (n if type(n) is int else ("ix", n),), None)
    return UNIT


@model("std::vec::Vec::<T, A>::pop")
def m_vec_pop(E, st, c):
    p = c.args[0]
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    if cont[0] == "A":
        if not cont[1]:
            return NONE
        st.heap[vec[1]] = ("A", cont[1][:-1])
        return some(cont[1][-1])
    if cont[0] == "HA":
        if not cont[2]:
            if getattr(E.C, "hidden_unknown", False):
                raise Unknown("an element of the general part is accessed")
            raise Stop("hidden")
        st.heap[vec[1]] = ("HA", cont[1], cont[2][:-1])
        return some(cont[2][-1])
    raise Unknown("pop of " + cont[0])


@model("std::vec::Vec::<T, A>::len", "std::string::String::len")
def m_vec_len(E, st, c):
    vec = getvec(E, st, c.args[0])
    return E.lenof(st, E.content(st, vec[1]))


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty")
def m_vec_is_empty(E, st, c):
    vec = getvec(E, st, c.args[0])
    return E.compare(st, "Eq", E.lenof(st, E.content(st, vec[1])), 0)


@model("std::vec::Vec::<T, A>::capacity", "std::string::String::capacity")
def m_vec_capacity(E, st, c):
    vec = getvec(E, st, c.args[0])
    n = E.lenof(st, E.content(st, vec[1]))
    return n


@model(
    "std::vec::Vec::<T, A>::reserve",
    "std::vec::Vec::<T, A>::reserve_exact",
    "std::vec::Vec::<T, A>::shrink_to_fit",
    "std::string::String::reserve",
    "std::string::String::shrink_to_fit",
)
def m_vec_reserve(E, st, c):
    p = c.args[0]
    vec = getvec(E, st, p)
    if vec[1] != NIL:
        cont = E.content(st, vec[1])
        if cont[0] in ("A", "HA"):
            newbuf(E, st, p, vec[1], cont)
    return UNIT


@model("std::vec::Vec::<T, A>::clear", "std::vec::Vec::<T, A>::truncate", "std::string::String::clear", "std::string::String::truncate")
def m_vec_clear(E, st, c):
    p = c.args[0]
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    n = c.args[1] if len(c.args) > 1 else 0
    ety = vec_ety(E, c.argtys[0]) if c.argtys else None
    nd = ety is not None and E.T[ety].get("nd")
    if cont[0] == "A" and type(n) is int:
        if vec[1] == NIL:
            return UNIT
        drop = cont[1][n:]
        st.heap[vec[1]] = ("A", cont[1][:n])
        if nd and drop:
            return drop_values(E, st, drop, ety)
        return UNIT
    if n == 0 and not nd:
        st.heap[vec[1]] = ("A", ())
        return UNIT
    if hasattr(E.C, "truncate"):
        r = E.C.truncate(E, st, cont, n)
        if r is not None:
            st.heap[vec[1]] = r
            return UNIT
    raise Unknown("truncate of " + cont[0])


def vec_ety(E, ty):
    t = E.P.rep(ty)
    x = E.T[t]
    if x["k"] in ("ref", "ptr"):
        t = E.P.rep(x["e"])
        x = E.T[t]
    if x["k"] == "adt" and x["path"] == "std::vec::Vec":
        return x["args"][0]
    return None


def drop_values(E, st, vals, ety):
    import engine

    tmp = E.alloc(st, ("A", tuple(vals)), "t")
    acts = [("d", tmp, (i,), None, ety) for i in range(len(vals))] + [("free", tmp)]
    st.frames.append(["N", engine.n_drop, tuple(acts), None])
    return NATIVE


@model(
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
    "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
    "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice",
    "<std::string::String as std::ops::Deref>::deref",
    "<std::string::String as std::ops::DerefMut>::deref_mut",
    "std::string::String::as_str",
    "std::string::String::as_mut_str",
    "std::string::String::as_bytes",
    "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
    "<std::string::String as std::convert::AsRef<str>>::as_ref",
    "<std::string::String as std::convert::AsRef<[u8]>>::as_ref",
    "std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow",
    "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow",
)
def m_vec_deref(E, st, c):
    vec = getvec(E, st, c.args[0])
    n = E.lenof(st, E.content(st, vec[1]))
    return ("R", vec[1], (), ("len", n))


@model("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def m_vec_as_ptr(E, st, c):
    vec = getvec(E, st, c.args[0])
    return ("R", vec[1], (0,), None)


@model("std::string::String::into_bytes", "std::string::String::from_utf8_unchecked", "std::string::String::as_mut_vec")
def m_string_into_bytes(E, st, c):
    v = c.args[0]
    if c.name.endswith("into_bytes"):
        return getvecv(E, st, v)
    if c.name.endswith("as_mut_vec"):
        return ("R", v[1], v[2] + (0,), None)
    return ("S", (getvecv(E, st, v),))


@model("std::vec::Vec::<T, A>::insert")
def m_vec_insert(E, st, c):
    p, i, v = c.args
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    if cont[0] != "A" or type(i) is not int:
        raise Unknown("insert")
    if i > len(cont[1]):
        raise Panic("insertion index")
    newbuf(E, st, p, vec[1], ("A", cont[1][:i] + (v,) + cont[1][i:]))
    return UNIT


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_vec_remove(E, st, c):
    p, i = c.args
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    if cont[0] == "HA":
        j = sub(i, cont[1])
        if type(j) is int and j == len(cont[2]) - 1:
            st.heap[vec[1]] = ("HA", cont[1], cont[2][:-1])
            return cont[2][-1]
        if getattr(E.C, "hidden_unknown", False):
            raise Unknown("an element of the general part is accessed")
        raise Stop("hidden")
    if cont[0] != "A" or type(i) is not int:
        raise Unknown("remove")
    if i >= len(cont[1]):
        raise Panic("removal index")
    e = cont[1][i]
    if c.name.endswith("swap_remove"):
        l = list(cont[1])
        l[i] = l[-1]
        l.pop()
    else:
        l = cont[1][:i] + cont[1][i + 1 :]
    if vec[1] != NIL:
        st.heap[vec[1]] = ("A", tuple(l))
    return e


def slice_pieces(E, st, p):
    """the elements of a slice or str"""
    if p[0] == "O":
        p = E.expand(st, p)
    if p[0] == "P" or p[1] == ("zst",):
        return []
    proj = p[2]
    off = 0
    if proj and type(proj[-1]) is tuple and proj[-1][0] == "@":
        off = proj[-1][1]
        proj = proj[:-1]
    cont = E.load(st, p[1], proj)
    if p[3] is None or p[3][0] != "len":
        n = E.lenof(st, cont)
    else:
        n = p[3][1]
    if type(n) is int and type(off) is int and cont[0] == "A":
        if off + n > len(cont[1]):
            raise UB("slice longer than its memory")
        return list(cont[1][off : off + n])
    if type(n) is int and n == 0:
        return []
    if hasattr(E.C, "slice_pieces"):
        r = E.C.slice_pieces(E, st, cont, off, n)
        if r is not None:
            return r
    if cont[0] == "OA":
        return [("pc", "cp", cont[2], off, add(off, n))]
    if cont[0] == "T" and off == 0:
        return [q if q[0] == "pc" else q[1] for q in cont[1]]
    raise Unknown("slice of " + cont[0])


def whole(E, st, p):
    """the content if the slice covers a whole sequence"""
    if p[0] == "O":
        p = E.expand(st, p)
    proj = p[2]
    if proj and type(proj[-1]) is tuple and proj[-1][0] == "@":
        if proj[-1][1] != 0:
            return None
        proj = proj[:-1]
    if p[1] == ("zst",):
        return ("A", ())
    cont = E.load(st, p[1], proj)
    if cont[0] in ("OA", "T", "A") and p[3] is not None and p[3][0] == "len":
        if cont[0] == "T":
            return cont
        if sub(E.lenof(st, cont), p[3][1]) == 0:
            return cont
    return None


@model(
    "std::vec::Vec::<T, A>::extend_from_slice",
    "std::string::String::push_str",
    "<std::string::String as std::fmt::Write>::write_str",
    "std::vec::Vec::<T, A>::append_elements",
)
def m_extend(E, st, c):
    p, s = c.args
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    ps = slice_pieces(E, st, s)
    if ps:
        ety = vec_ety(E, c.argtys[0]) if c.argtys else None
        if ety is not None and E.T[ety].get("nd") and not c.name.endswith("append_elements"):
            raise Unknown("extend with elements which are cloned")
        newbuf(E, st, p, vec[1], append(E, st, cont, tuple(ps)))
    if c.name.endswith("write_str"):
        return ok()
    return UNIT


@model("std::string::String::push", "<std::string::String as std::fmt::Write>::write_char")
def m_string_push(E, st, c):
    p, ch = c.args
    vec = getvec(E, st, p)
    cont = E.content(st, vec[1])
    if type(ch) is int:
        vals = tuple(chr(ch).encode("utf8", "surrogatepass"))
    elif E.decide(st, ch, ((0, 127),)):
        vals = (ch,)
    else:
        vals = (("pc", "chr", ch),)
    newbuf(E, st, p, vec[1], append(E, st, cont, vals))
    if c.name.endswith("write_char"):
        return ok()
    return UNIT


@model(
    "std::slice::<impl [T]>::to_vec",
    "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
    "std::slice::<impl [T]>::to_vec_in",
    "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec",
)
def m_to_vec(E, st, c):
    ety = None
    if c.argtys:
        x = E.T[E.P.rep(c.argtys[0])]
        if x["k"] == "ref":
            s = E.T[E.P.rep(x["e"])]
            ety = s.get("e")
    w = whole(E, st, c.args[0])
    if ety is not None and E.T[ety].get("nd"):
        r = clone_seq(E, st, w, ety)
        if r is None:
            raise Unknown("clone of a slice of " + E.T[ety]["p"])
        return ("V", E.alloc(st, r, "v"))
    if w is None:
        ps = slice_pieces(E, st, c.args[0])
        if all(not (type(q) is tuple and q and q[0] == "pc") for q in ps):
            w = ("A", tuple(ps))
        else:
            w = to_text(("A", ()), ps)
    return ("V", E.alloc(st, w, "v"))


def clone_seq(E, st, w, ety):
    """a structural copy, if there is nothing but plain data inside"""
    if w is None or w[0] != "A":
        return None
    return ("A", tuple(clone_value(E, st, v) for v in w[1]))


def clone_value(E, st, v):
    if type(v) is not tuple or not v:
        return v
    if v[0] == "V":
        c = E.content(st, v[1])
        if v[1] == NIL:
            return v
        if c[0] == "A":
            c = ("A", tuple(clone_value(E, st, x) for x in c[1]))
        return ("V", E.alloc(st, c, "v"))
    if v[0] in ("S", "A"):
        return (v[0], tuple(clone_value(E, st, x) for x in v[1]))
    if v[0] == "E":
        return ("E", v[1], tuple(clone_value(E, st, x) for x in v[2]))
    if v[0] == "O":
        t = E.T[v[1]]
        if t["k"] == "adt" and t["path"] == "std::string::String":
            return v
        return v
    if v[0] == "R":
        return v
    return v


@model(
    "std::str::<impl std::borrow::ToOwned for str>::to_owned",
    "<str as std::string::SpecToString>::spec_to_string",
    "std::string::<impl std::convert::From<&'a str> for std::string::String>::from",
    "<std::string::String as std::convert::From<&str>>::from",
    "std::str::<impl str>::to_string",
    "std::str::<impl str>::into_string",
)
def m_str_to_owned(E, st, c):
    w = whole(E, st, c.args[0])
    if w is None:
        ps = slice_pieces(E, st, c.args[0])
        if all(not (type(q) is tuple and q and q[0] == "pc") for q in ps):
            w = ("A", tuple(ps))
        else:
            w = to_text(("A", ()), ps)
    return ("S", (("V", E.alloc(st, w, "s")),))


@model("<std::string::String as std::clone::Clone>::clone", "<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def m_string_clone(E, st, c):
    p = c.args[0]
    v = E.load(st, p[1], p[2])
    vec = getvecv(E, st, v)
    cont = E.content(st, vec[1])
    if "Vec" in c.name:
        ety = vec_ety(E, c.argtys[0]) if c.argtys else None
        if ety is not None and E.T[ety].get("nd"):
            cont = clone_seq(E, st, cont, ety)
            if cont is None:
                raise Unknown("clone of a vector")
        return ("V", E.alloc(st, cont, "v"))
    return ("S", (("V", E.alloc(st, cont, "s")),))


def m_spec_to_string(E, st, c):
    p = c.args[0]
    v = E.load(st, p[1], p[2])
    ty = c.full.split(" as ")[0][1:]
    if "Cow" in ty or ty == "str" or "String" in ty:
        if "Cow" in ty:
            vi = E.variant_of(st, v)
            if v[0] == "O":
                v = E.expand(st, v)
            inner = v[2][0]
            if vi == 0:
                return m_str_to_owned(E, st, Call(None, None, [inner], None, None))
            vec = getvecv(E, st, inner)
            return ("S", (("V", E.alloc(st, E.content(st, vec[1]), "s")),))
        vec = getvecv(E, st, v)
        return ("S", (("V", E.alloc(st, E.content(st, vec[1]), "s")),))
    return ("S", (("V", E.alloc(st, fmt_text(E, st, v, ty), "s")),))


def fmt_text(E, st, v, ty):
    if ty in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        if type(v) is int:
            return ("A", tuple(str(v).encode()))
        return ("T", (("pc", "int", v, ty),))
    if ty in ("f32", "f64"):
        return ("T", (("pc", "flt", v, ty),))
    if ty == "char":
        if type(v) is int:
            return ("A", tuple(chr(v).encode()))
        return ("T", (("pc", "chr", v),))
    if ty == "bool":
        b = E.boolean(st, v)
        return ("A", tuple(b"true" if b else b"false"))
    return ("T", (("pc", "any", N("fmt")),))


# vec::IntoIter: ('S', (vec, index))
@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_vec_into_iter(E, st, c):
    v = getvecv(E, st, c.args[0])
    return ("II", v, 0)


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next")
def m_into_iter_next(E, st, c):
    p = c.args[0]
    v = E.load(st, p[1], p[2])
    if v[0] != "II":
        raise Unknown("IntoIter")
    cont = E.content(st, v[1][1])
    n = E.lenof(st, cont)
    if not E.compare(st, "Lt", v[2], n):
        return NONE
    e = E.sub_value(st, cont, v[2] if type(v[2]) is int else ("ix", v[2]))
    E.store(st, p[1], p[2], ("II", v[1], add(v[2], 1)))
    return some(e)


# ------------------------------------------------------------------ boxes, memory
@model("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::pin", "std::boxed::Box::<T, A>::new_in")
def m_box_new(E, st, c):
    return ("R", E.alloc(st, c.args[0], "b"), (), None)


@model(
    "std::boxed::box_new_uninit",
    "std::boxed::Box::<T, A>::new_uninit_in",
    "std::boxed::Box::<T>::new_uninit",
    "alloc::alloc::__rust_alloc",
    "alloc::alloc::__rust_alloc_zeroed",
)
def m_box_new_uninit(E, st, c):
    return ("R", E.alloc(st, UNINIT, "b"), (), None)


@model("<std::alloc::Global as std::alloc::Allocator>::deallocate", "alloc::alloc::dealloc", "std::alloc::dealloc", "<&A as std::alloc::Allocator>::deallocate")
def m_dealloc(E, st, c):
    p = c.args[1] if "deallocate" in c.name else c.args[0]
    if p[0] == "R" and p[1] != ("zst",):
        E.free(st, p[1], "memory")
    return UNIT


@model("alloc::alloc::__rust_dealloc")
def m_rust_dealloc(E, st, c):
    p = c.args[0]
    if p[0] == "R" and p[1] != ("zst",):
        E.free(st, p[1], "memory")
    return UNIT


@model("alloc::alloc::__rust_no_alloc_shim_is_unstable_v2", "std::intrinsics::cold_path")
def m_unit(E, st, c):
    return UNIT


prefix("std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid", "std::intrinsics::assert_mem_uninitialized_valid")(m_unit)


@model("std::ptr::drop_in_place", "std::ptr::drop_in_place::<T>")
def m_drop_in_place(E, st, c):
    import engine

    p = c.args[0]
    e = E.P.pointee(c.argtys[0])
    if E.T[e].get("nd") is False:
        return UNIT
    st.frames.append(["N", engine.n_drop, (("d", p[1], p[2], p[3], e),), None])
    return NATIVE


@model("std::mem::needs_drop")
def m_needs_drop(E, st, c):
    t = c.x["args"][0]
    return 1 if E.T[t].get("nd") else 0


def m_size_of(E, st, c):
    t = c.x["args"][0]
    s = E.T[t].get("sz")
    if s is None:
        return E.fnatom("size", (t,), 0, 1 << 40)
    return s


prefix("std::intrinsics::size_of", "std::mem::size_of", "std::intrinsics::align_of", "std::mem::align_of")(m_size_of)


@prefix("std::intrinsics::copy::<", "std::intrinsics::copy")
def m_copy(E, st, c):
    E.copy_mem(st, c.args[0], c.args[1], c.args[2], True)
    return UNIT


MODELS["std::ptr::copy"] = m_copy
MODELS["std::ptr::copy_nonoverlapping"] = m_copy
MODELS["std::intrinsics::copy_nonoverlapping"] = m_copy


@prefix("std::intrinsics::write_bytes", "std::ptr::write_bytes")
def m_write_bytes(E, st, c):
    raise Unknown("write_bytes")


@prefix("std::intrinsics::atomic_load")
def m_atomic_load(E, st, c):
    p = c.args[0]
    return E.load(st, p[1], p[2])


@prefix("std::intrinsics::atomic_store")
def m_atomic_store(E, st, c):
    p = c.args[0]
    E.store(st, p[1], p[2], c.args[1])
    return UNIT


@prefix("std::intrinsics::ptr_offset_from_unsigned", "std::intrinsics::ptr_offset_from")
def m_offset_from(E, st, c):
    a, b = c.args
    if a[0] == "R" and b[0] == "R" and a[1] == b[1]:
        if a[2] == b[2]:
            return 0
        if a[2] and b[2] and a[2][:-1] == b[2][:-1] and pidx(a[2][-1]) is not None:
            return sub(pidx(a[2][-1]), pidx(b[2][-1]))
    if a[0] == "P" and b[0] == "P":
        return sub(a[1], b[1])
    raise Unknown("pointer difference")


@prefix("std::intrinsics::is_val_statically_known")
def m_zero(E, st, c):
    return 0


@prefix("std::intrinsics::integer_max")
def m_integer_max(E, st, c):
    return E.trange(c.x["args"][0])[1]


@prefix("std::intrinsics::saturating_add", "std::intrinsics::saturating_sub")
def m_saturating(E, st, c):
    a, b = c.args
    r = add(a, b) if "add" in c.name else sub(a, b)
    lo, hi = E.trange(c.x["args"][0])
    if E.decide(st, r, ((lo, hi),)):
        return r
    return hi if E.decide(st, r, ((hi + 1, INF),)) else lo


@prefix("std::intrinsics::ctpop", "std::intrinsics::ctlz", "std::intrinsics::cttz", "std::intrinsics::bswap", "std::intrinsics::bitreverse")
def m_bitcount(E, st, c):
    v = c.args[0]
    n = E.bits(c.x["args"][0]) if c.x["args"] else 64
    name = c.name.split("::")[2].split("::")[0].split("<")[0]

    def f(x):
        x &= (1 << n) - 1
        if name == "ctpop":
            return bin(x).count("1")
        if name.startswith("ctlz"):
            return n - x.bit_length()
        if name.startswith("cttz"):
            return n if x == 0 else (x & -x).bit_length() - 1
        if name == "bswap":
            return int.from_bytes(x.to_bytes(n // 8, "little"), "big")
        raise Unknown(name)

    if type(v) is int:
        return f(v)
    t = E.tabulate(st, f, v)
    if t is None:
        t = E.fnatom(name, (v,), 0, n)
    return t


@prefix("std::intrinsics::fabs")
def m_fabs(E, st, c):
    v = c.args[0]
    if v[0] == "fl":
        n = 63 if v[2] == "f64" else 31
        return ("fl", v[1] & ~(1 << n), v[2])
    return ("fy", ("abs", v))


def _fclass(E, st, v):
    """finite / nan / infinite"""
    if v[0] == "fl":
        import math

        x = fval(v)
        return "nan" if math.isnan(x) else "inf" if math.isinf(x) else "fin"
    while type(v[1]) is tuple and v[1] and v[1][0] in ("Neg", "abs"):
        v = v[1][1]
    if type(v[1]) is tuple and v[1] and v[1][0] == "i2f":
        return "fin"
    key = ("fclass", v)
    r = st.exp.get(key)
    if r is None:
        raise Fork([[("exp", key, "fin")], [("exp", key, "nan")], [("exp", key, "inf")]])
    return r


@model("core::f64::<impl f64>::is_finite", "core::f32::<impl f32>::is_finite")
def m_is_finite(E, st, c):
    return 1 if _fclass(E, st, c.args[0]) == "fin" else 0


@model("core::f64::<impl f64>::is_nan", "core::f32::<impl f32>::is_nan")
def m_is_nan(E, st, c):
    return 1 if _fclass(E, st, c.args[0]) == "nan" else 0


@model("core::f64::<impl f64>::is_infinite", "core::f32::<impl f32>::is_infinite")
def m_is_infinite(E, st, c):
    return 1 if _fclass(E, st, c.args[0]) == "inf" else 0


# ------------------------------------------------------------------ types
@model("std::any::TypeId::of", "std::intrinsics::type_id")
def m_typeid(E, st, c):
    return ("S", (("tid", E.P.rep(c.x["args"][0])),))


@model("<std::any::TypeId as std::cmp::PartialEq>::eq", "<std::any::TypeId as std::cmp::PartialEq>::ne")
def m_typeid_eq(E, st, c):
    a = E.load(st, c.args[0][1], c.args[0][2])
    b = E.load(st, c.args[1][1], c.args[1][2])
    eq = 1 if a == b else 0
    return eq if c.name.endswith("eq") else 1 - eq


@model("<std::any::TypeId as std::hash::Hash>::hash")
def m_hash(E, st, c):
    return UNIT


@model("std::any::type_name", "std::any::type_name_of_val")
def m_type_name(E, st, c):
    b = E.T[c.x["args"][0]]["p"].encode()
    k = ("k", "tn%d" % c.x["args"][0])
    E.P.constmem[k] = ("A", tuple(b))
    return ("R", k, (), ("len", len(b)))


# ------------------------------------------------------------------ maps
def getmap(E, st, p):
    v = E.load(st, p[1], p[2])
    if v[0] == "O":
        v = E.expand(st, v)
    if v[0] == "U":
        raise UB("use of an uninitialised map")
    if v[0] != "M":
        raise Unknown("not a map: " + v[0])
    return v


NEWMAP = [
    "std::collections::HashMap::<K, V>::new",
    "std::collections::HashMap::<K, V, S>::with_hasher",
    "std::collections::HashMap::<K, V, S>::with_capacity_and_hasher",
    "std::collections::HashMap::<K, V>::with_capacity",
    "<std::collections::HashMap<K, V, S> as std::default::Default>::default",
    "<std::collections::HashSet<T, S> as std::default::Default>::default",
    "std::collections::HashSet::<T>::new",
    "std::collections::HashSet::<T, S>::with_hasher",
    "std::collections::BTreeMap::<K, V>::new",
    "<std::collections::BTreeMap<K, V> as std::default::Default>::default",
    "std::collections::BTreeSet::<T>::new",
    "<std::collections::BTreeSet<T> as std::default::Default>::default",
]


@model(*NEWMAP)
def m_map_new(E, st, c):
    return ("M", NIL)


def map_type(E, c):
    t = E.P.rep(c.argtys[0])
    x = E.T[t]
    if x["k"] in ("ref", "ptr"):
        x = E.T[E.P.rep(x["e"])]
    return x


def map_concrete(E, st, x):
    k = E.T[x["args"][0]]
    return not ((k["k"] == "adt" and k["path"].startswith("opq::")) or x.get("keyeq") is None)


def n_map_find(E, st, fr):
    """data = (keyeq, map buffer, key pointer, index, then, extra)"""
    keyeq, buf, kp, i, then, extra = fr[2]
    ret = fr[3]
    if ret is not None:
        fr[3] = None
        if E_true(E, st, ret, fr):
            return then_found(E, st, fr, i - 1)
    cont = E.content(st, buf)
    if cont[0] != "A":
        raise Unknown("lookup in " + cont[0])
    if i >= len(cont[1]):
        return then_found(E, st, fr, None)
    fr[2] = (keyeq, buf, kp, i + 1, then, extra)
    E.call_inst(st, keyeq, [("R", buf, (i, 0), None), kp], None, None, None, None)
    return None


def E_true(E, st, v, fr):
    try:
        return E.boolean(st, v)
    except Fork:
        fr[3] = v
        raise


def then_found(E, st, fr, i):
    keyeq, buf, kp, _, then, extra = fr[2]
    if then == "get":
        r = NONE if i is None else some(("R", buf, (i, 1), None))
    elif then == "contains":
        r = 0 if i is None else 1
    elif then == "insert":
        p, k, v, tmp = extra
        E.free(st, tmp)
        cont = E.content(st, buf)
        if i is None:
            map_append(E, st, p, buf, ("S", (k, v)))
            r = NONE
        else:
            old = cont[1][i][1][1]
            st.heap[buf] = ("A", cont[1][:i] + (("S", (cont[1][i][1][0], v)),) + cont[1][i + 1 :])
            r = some(old)
    else:
        raise Unknown(then)
    E.ret(st, r)
    return None


def map_append(E, st, p, buf, e):
    cont = E.content(st, buf)
    if cont[0] == "A":
        n = ("A", cont[1] + (e,))
    elif cont[0] == "HA":
        n = ("HA", cont[1], cont[2] + (e,))
    else:
        raise Unknown("insert into " + cont[0])
    if buf != NIL:
        E.free(st, buf, "map")
    b = E.alloc(st, n, "m")
    E.store(st, p[1], p[2], ("M", b))
    return b


@model(
    "std::collections::HashMap::<K, V, S, A>::get",
    "std::collections::HashMap::<K, V, S, A>::get_mut",
    "std::collections::HashMap::<K, V, S, A>::contains_key",
    "std::collections::HashMap::<K, V, S>::get",
    "std::collections::HashMap::<K, V, S>::get_mut",
    "std::collections::HashMap::<K, V, S>::contains_key",
)
def m_map_get(E, st, c):
    m = getmap(E, st, c.args[0])
    x = map_type(E, c)
    if not map_concrete(E, st, x):
        raise Unknown("lookup of an opaque key")
    then = "contains" if c.name.endswith("contains_key") else "get"
    st.frames.append(["N", n_map_find, (x["keyeq"], m[1], c.args[1], 0, then, None), None])
    return NATIVE


@model(
    "std::collections::HashMap::<K, V, S, A>::insert",
    "std::collections::HashMap::<K, V, S>::insert",
    "std::collections::BTreeMap::<K, V, A>::insert",
)
def m_map_insert(E, st, c):
    p, k, v = c.args
    m = getmap(E, st, p)
    x = map_type(E, c)
    if map_concrete(E, st, x):
        tmp = E.alloc(st, k, "t")
        st.frames.append(["N", n_map_find, (x["keyeq"], m[1], ("R", tmp, (), None), 0, "insert", (p, k, v, tmp)), None])
        return NATIVE
    map_append(E, st, p, m[1], ("S", (k, v)))
    return E.fresh(st, c.destty, "old") if getattr(E.C, "mapold", False) else NONE


@model(
    "std::collections::HashSet::<T, S, A>::insert",
    "std::collections::HashSet::<T, S>::insert",
    "std::collections::BTreeSet::<T, A>::insert",
)
def m_set_insert(E, st, c):
    p, k = c.args
    m = getmap(E, st, p)
    map_append(E, st, p, m[1], ("S", (k, UNIT)))
    return E.fresh(st, c.destty, "new")


@model(
    "std::collections::HashMap::<K, V, S, A>::len",
    "std::collections::HashMap::<K, V, S>::len",
    "std::collections::BTreeMap::<K, V, A>::len",
    "std::collections::BTreeSet::<T, A>::len",
    "std::collections::HashSet::<T, S, A>::len",
    "std::collections::HashSet::<T, S>::len",
)
def m_map_len(E, st, c):
    m = getmap(E, st, c.args[0])
    return E.lenof(st, E.content(st, m[1]))


@model(
    "std::collections::HashMap::<K, V, S, A>::is_empty",
    "std::collections::BTreeMap::<K, V, A>::is_empty",
    "std::collections::BTreeSet::<T, A>::is_empty",
    "std::collections::HashSet::<T, S, A>::is_empty",
)
def m_map_is_empty(E, st, c):
    m = getmap(E, st, c.args[0])
    return E.compare(st, "Eq", E.lenof(st, E.content(st, m[1])), 0)


@model(
    "std::collections::HashMap::<K, V, S, A>::iter",
    "std::collections::HashMap::<K, V, S>::iter",
    "std::collections::BTreeMap::<K, V, A>::iter",
    "std::collections::BTreeSet::<T, A>::iter",
    "std::collections::HashSet::<T, S, A>::iter",
    "std::collections::HashSet::<T, S>::iter",
    "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
    "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
    "<&'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter",
    "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter",
)
def m_map_iter(E, st, c):
    m = getmap(E, st, c.args[0])
    x = map_type(E, c)
    return ("S", (("R", m[1], (), None), 0, 1 if MAPS[x["path"]] else 0))


@model(
    "<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::next",
    "<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::next",
    "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next",
    "<std::collections::hash_set::Iter<'a, K> as std::iter::Iterator>::next",
)
def m_map_iter_next(E, st, c):
    p = c.args[0]
    v = E.load(st, p[1], p[2])
    if v[0] != "S" or len(v[1]) != 3:
        raise Unknown("map iterator")
    m, i, kv = v[1]
    cont = E.content(st, m[1])
    n = E.lenof(st, cont)
    if not E.compare(st, "Lt", i, n):
        return NONE
    E.store(st, p[1], p[2], ("S", (m, add(i, 1), kv)))
    ix = i if type(i) is int else ("ix", i)
    k = ("R", m[1], (ix, 0), None)
    if kv:
        return some(("S", (k, ("R", m[1], (ix, 1), None))))
    return some(k)


# ------------------------------------------------------------------ text
@model("std::str::from_utf8", "core::str::from_utf8", "std::str::from_utf8_mut")
def m_from_utf8(E, st, c):
    p = c.args[0]
    if hasattr(E.C, "from_utf8"):
        r = E.C.from_utf8(E, st, p)
        if r is not None:
            return r
    w = whole(E, st, p)
    if w is not None and w[0] == "A" and all(type(b) is int for b in w[1]):
        try:
            bytes(w[1]).decode("utf8")
            return ok(p)
        except UnicodeDecodeError:
            return err(E.fresh(st, E.T[c.destty]["v"][1][2][0][1], "utf8error"))
    key = ("utf8", p[1], p[2], p[3])
    r = st.exp.get(key)
    if r is None:
        raise Fork([[("exp", key, 1)], [("exp", key, 0)]])
    return ok(p) if r else err(E.fresh(st, E.T[c.destty]["v"][1][2][0][1], "utf8error"))


@model("std::str::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked", "core::str::<impl str>::as_bytes")
def m_ident(E, st, c):
    return c.args[0]


def seq_id(E, st, p):
    """an identification of the text behind a str or slice reference: ('c', bytes) or a value"""
    if p[0] == "O":
        p = E.expand(st, p)
    ps = slice_pieces(E, st, p)
    if all(type(x) is int for x in ps):
        return ("c", tuple(ps))
    return ("s", tuple(ps))


def text_eq(E, st, a, b):
    if a == b:
        return 1
    if a[0] == "c" and b[0] == "c":
        return 0
    if a[0] == "c":
        a, b = b, a
    if hasattr(E.C, "text_eq"):
        r = E.C.text_eq(E, st, a, b)
        if r is not None:
            return r
    if b[0] == "c":
        # one text equals at most one constant
        for k, v in st.exp.items():
            if k[0] == "teq" and k[1] == a and v == 1:
                return 1 if k[2] == b else 0
    key = ("teq", a, b)
    r = st.exp.get(key)
    if r is None:
        raise Fork([[("exp", key, 1)], [("exp", key, 0)]])
    return r


def deref_str(E, st, p):
    """&&str, &String, &Cow<str>, &str -> the reference to the text"""
    while True:
        if p[0] == "O":
            p = E.expand(st, p)
        if p[0] == "R" and p[3] is not None and p[3][0] == "len":
            return p
        if p[0] == "R":
            v = E.load(st, p[1], p[2])
        else:
            v = p
        if v[0] == "O":
            x = E.T[v[1]]
            if x["k"] == "adt" and x["ak"] == "enum":
                E.variant_of(st, v)
            v = E.expand(st, v)
        if v[0] == "R":
            p = v
            continue
        if v[0] == "E":  # Cow
            p = v[2][0]
            if p[0] == "R":
                continue
            v = p
        vec = getvecv(E, st, v)
        return ("R", vec[1], (), ("len", E.lenof(st, E.content(st, vec[1]))))


def m_str_eq(E, st, c):
    a = seq_id(E, st, deref_str(E, st, c.args[0]))
    b = seq_id(E, st, deref_str(E, st, c.args[1]))
    r = text_eq(E, st, a, b)
    return 1 - r if c.name.endswith("::ne") else r


for _a in ("str", "std::string::String", "&str", "&'a str", "std::borrow::Cow<'a, str>", "std::borrow::Cow<'_, str>", "&'b str"):
    for _b in ("", "<str>", "<std::string::String>", "<&str>", "<&'a str>", "<&'b str>", "<std::borrow::Cow<'a, str>>"):
        for _m in ("eq", "ne"):
            MODELS["<%s as std::cmp::PartialEq%s>::%s" % (_a, _b, _m)] = m_str_eq
            MODELS["core::str::traits::<impl std::cmp::PartialEq%s for %s>::%s" % (_b, _a, _m)] = m_str_eq
            MODELS["std::str::traits::<impl std::cmp::PartialEq%s for %s>::%s" % (_b, _a, _m)] = m_str_eq


@model("std::intrinsics::compare_bytes")
def m_compare_bytes(E, st, c):
    a, b, n = c.args
    pa = seq_id(E, st, ("R", a[1], a[2][:-1] + (("@", pidx(a[2][-1])),), ("len", n)))
    pb = seq_id(E, st, ("R", b[1], b[2][:-1] + (("@", pidx(b[2][-1])),), ("len", n)))
    if pa[0] == "c" and pb[0] == "c":
        return 0 if pa == pb else (-1 if pa[1] < pb[1] else 1)
    if text_eq(E, st, pa, pb):
        return 0
    at = ("fn", "cmp", pa, pb)
    ATOMTY.setdefault(at, ((-1, -1), (1, 1)))
    return lin(at)


# ------------------------------------------------------------------ formatting
@model("std::fmt::format", "std::fmt::format::format_inner")
def m_format(E, st, c):
    if hasattr(E.C, "format"):
        r = E.C.format(E, st, c)
        if r is not None:
            return r
    return ("S", (("V", E.alloc(st, ("T", (("pc", "any", N("fmt")),)), "s")),))


def m_opaque_fmt(E, st, c):
    """creation of format arguments"""
    return ("S", (("fmtarg", c.name.rsplit("::", 1)[-1], c.args[0] if c.args else None),))


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer", "debug_noop", "from_usize"):
    MODELS["core::fmt::rt::Argument::<'_>::new_" + _k] = m_opaque_fmt
MODELS["core::fmt::rt::Argument::<'_>::from_usize"] = m_opaque_fmt


def m_arguments(E, st, c):
    return ("S", (("fmtargs", tuple(c.args)),))


prefix("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "core::fmt::rt::<impl std::fmt::Arguments<'_>>::new", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new")(m_arguments)


# ------------------------------------------------------------------ the chars of a text
CHARW = {1: ((0, 0x7F),), 2: ((0x80, 0x7FF),), 3: ((0x800, 0xD7FF), (0xE000, 0xFFFF)), 4: ((0x10000, 0x10FFFF),)}


def char_at(E, st, a, pre, o, room, back=False):
    """the width and value of the char at a position of a text; room: number of bytes up to the end"""
    cont = E.load(st, a, pre)
    if cont[0] == "A" and type(o) is int:
        b = cont[1]
        if back:
            k = o - 1
            while k > 0 and type(b[k]) is int and b[k] & 0xC0 == 0x80:
                k -= 1
            w, o = o - k, k
        else:
            b0 = b[o]
            if type(b0) is not int:
                raise Unknown("chars of symbolic bytes")
            w = 1 if b0 < 0x80 else 2 if b0 < 0xE0 else 3 if b0 < 0xF0 else 4
        if all(type(x) is int for x in b[o : o + w]):
            return w, ord(bytes(b[o : o + w]).decode("utf8"))
        raise Unknown("chars of symbolic bytes")
    if cont[0] != "OA":
        raise Unknown("chars of " + cont[0])
    key = ("chw", a, pre, o, back)
    w = st.exp.get(key)
    if w is None:
        raise Fork([[("dom", room, ((i, 1 << 63),)), ("exp", key, i)] for i in (1, 2, 3, 4)])
    if back:
        o = sub(o, w)
    at = ("fn", "chr", (a, pre), o, w)
    ATOMTY.setdefault(at, CHARW[w])
    return w, lin(at)


def chars_parts(E, st, p):
    it = E.load(st, p[1], p[2])
    it = it if it[0] == "S" else E.expand(st, it)
    inner = it[1][0]
    a, e = inner[1][0], inner[1][1]
    if a[1] != e[1] or normp(a[2][:-1]) != normp(e[2][:-1]):
        raise Unknown("iterator over chars")
    o, n = pidx_(a[2]), pidx_(e[2])
    return it, inner, a, e, o, n


def normp(x):
    return tuple(x)


def pidx_(proj):
    x = proj[-1]
    if type(x) is int:
        return x
    return x[1]


def chars_store(E, st, p, it, inner, a, e):
    E.store(st, p[1], p[2], ("S", (("S", (a, e) + inner[1][2:]),) + it[1][1:]))


def at_index(r, o):
    return ("R", r[1], r[2][:-1] + ((o if type(o) is int else ("ix", o)),), r[3])


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def m_chars_next(E, st, c):
    p = c.args[0]
    back = c.name.endswith("next_back")
    it, inner, a, e, o, n = chars_parts(E, st, p)
    if not E.compare(st, "Lt", o, n):
        return NONE
    w, v = char_at(E, st, a[1], a[2][:-1], n if back else o, sub(n, o), back)
    if back:
        chars_store(E, st, p, it, inner, a, at_index(e, sub(n, w)))
    else:
        chars_store(E, st, p, it, inner, at_index(a, add(o, w)), e)
    return some(v)


@model("<std::str::Chars<'a> as std::iter::Iterator>::count")
def m_chars_count(E, st, c):
    a0 = E.alloc(st, c.args[0], "chars")
    it, inner, a, e, o, n = chars_parts(E, st, ("R", a0, (), None))
    k = 0
    while E.compare(st, "Lt", o, n):
        if k == 2:
            at = ("fn", "chars", a[1], o, n)
            ATOMTY.setdefault(at, ((3, 1 << 62),))
            return lin(at)
        w, v = char_at(E, st, a[1], a[2][:-1], o, sub(n, o))
        o = add(o, w)
        k += 1
    return k
