"""Models of the standard library functions that are not analysed from their own MIR."""
import re
from .interp import (I, S, TRUE, FALSE, UNIT, PRIMS, Unsupported, NeedSplit, sym)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
FMT_ERR = "core::fmt::Error"


def strip(path):
    """drop generic arguments"""
    out, d, i = [], 0, 0
    while i < len(path):
        if path.startswith("::<", i) and not path.startswith("::<impl", i):
            d, i = 1, i + 3
            while d and i < len(path):
                c = path[i]
                if c == "<":
                    d += 1
                elif c == ">" and path[i - 1] != "-":
                    d -= 1
                i += 1
            continue
        out.append(path[i])
        i += 1
    return "".join(out)


def tkind(ip, T):
    """short name of a type's head"""
    if isinstance(T, str):
        return "int" if T in PRIMS and T not in ("bool", "char") else "float" if T in ("f32", "f64") else T
    t = ip.tinfo(T)
    if t["k"] == "adt":
        return t["adt"].split("::")[-1]
    return t["k"]


BASE_ITERS = {"IntoIter", "Iter", "IterMut", "Drain", "Chars", "Bytes", "CharIndices", "Windows", "Chunks", "RChunks"}
BASE_ITER_PATHS = ("alloc::vec::into_iter::IntoIter", "core::slice::iter::Iter", "core::slice::iter::IterMut",
                   "alloc::collections::vec_deque::iter::Iter", "alloc::collections::vec_deque::iter_mut::IterMut",
                   "alloc::collections::vec_deque::into_iter::IntoIter", "alloc::vec::drain::Drain",
                   "alloc::collections::vec_deque::drain::Drain",
                   "core::array::iter::IntoIter", "core::str::iter::Chars", "core::str::iter::Bytes")

T_MODELS, P_MODELS, N_MODELS = {}, {}, {}


def T(*keys):
    def d(f):
        for k in keys:
            T_MODELS[k] = f
        return f
    return d


def P(*keys):
    def d(f):
        for k in keys:
            P_MODELS[k] = f
        return f
    return d


def N(*keys):
    def d(f):
        for k in keys:
            N_MODELS[k] = f
        return f
    return d


def find(ip, info):
    path = info["path"]
    tr = info.get("trait")
    if tr is not None and "method" in info:
        t = tr.split("::")[-1]
        st = ip.canon(info["self_ty"]) if "self_ty" in info else None
        k = tkind(ip, st) if st is not None else ""
        a = ip.adt(st) if st is not None else None
        if t in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "Clone", "IntoIterator") and a in BASE_ITER_PATHS:
            k = "@iter"
        elif k in BASE_ITERS:
            k = "?"
        for key in ((t, info["method"], k), (t, info["method"], "*")):
            m = T_MODELS.get(key)
            if m is not None:
                return m
        if k == "@iter" and t in ("Iterator", "DoubleEndedIterator"):
            # an overriding method of a base iterator: no model
            if not path.startswith("core::iter::traits"):
                def bad(ip, st, info, args):
                    raise Unsupported("no model for %s" % path)
                return bad
        return None
    if path.startswith(("core::num::<impl ", "core::f64::<impl ", "core::f32::<impl ", "std::f64::<impl ", "std::f32::<impl ",
                        "core::num::f64::<impl", "std::num::f64::<impl")):
        return N_MODELS.get(("float" if "::<impl f" in path else "int", info["method"]))
    sp = strip(path)
    m = P_MODELS.get(sp)
    if m is not None:
        return m
    sp2 = re.sub(r"<impl [^>]*(<[^>]*>)*[^>]*>", "<impl>", path)
    return P_MODELS.get(strip(sp2))


def ret(st, v):
    return [(st, ("ret", v))]


def none(ip, T):
    return ip.mk(T, "None")


def some(ip, T, v):
    return ip.mk(T, "Some", (v,))


def rty(ip, info):
    """return type of a function, from its type (works without MIR)"""
    if info.get("has_body"):
        return ip.ret_ty(info)
    if "ret" in info:
        return ip.canon(info["ret"])
    raise Unsupported("return type of %s" % info["path"])


def deref(ip, st, v):
    v = st.res(v)
    while v[0] == "ptr":
        v = ip.load(st, v)
    if v[0] == "box":
        v = ip.load(st, v)
    if v[0] == "sym" and ip.kind(v[3]) == "ref":
        return deref(ip, st, sym("deref", (v,), ip.elem(v[3])))
    return v


def const_int(ip, st, v, what="index"):
    v = st.res(v)
    if v[0] != "i":
        raise Unsupported("an unknown %s" % what)
    return v[1]


# ------------------------------------------------------------------ clone / borrow / convert
def clone_identity(ip, T, seen=()):
    """does cloning a T give an equal value without running hand-written code?"""
    if isinstance(T, str):
        return True
    if T in ip.clone_ok:
        return ip.clone_ok[T]
    if T in seen:
        return True
    t = ip.tinfo(T)
    k = t["k"]
    if k in ("ref", "fndef", "never", "ptr", "str", "fnptr"):
        return True
    if k in ("slice", "array"):
        return clone_identity(ip, ip.elem(T), seen)
    if k == "tuple" or k == "closure":
        return all(clone_identity(ip, ip.canon(e), seen + (T,)) for e in t["elems"])
    if k == "adt":
        r = True
        if t["local"]:
            r = False
            for im in ip.crate["impls"]:
                if im["trait"] == "core::clone::Clone" and im["self"].split("<")[0] == t["adt"] and im["derived"]:
                    r = True
            if r:
                r = all(clone_identity(ip, ip.canon(f[1]), seen + (T,)) for v in t["variants"] for f in v["fields"])
        else:
            r = all(clone_identity(ip, a, seen + (T,)) for a in ip.targs(T))
        if not seen:
            ip.clone_ok[T] = r
        return r
    return False


@T(("Clone", "clone", "*"))
def m_clone(ip, st, info, args):
    ty = ip.canon(info["self_ty"])
    v = st.res(args[0])
    inner = ip.load(st, v)
    if ip.kind(ty) == "ref":
        return ret(st, inner)
    if clone_identity(ip, ty):
        return ret(st, inner)
    if ip.is_seq(ty):
        E = ip.seq_elem(ty)
        m = ip.trait_method("core::clone::Clone", "clone", E)
        n = len(ip.content(st, inner))
        acc = [(st, ())]
        for j in range(n):
            nxt = []
            for s, xs in acc:
                for s2, o in ip.call(s, m, [ip.sub_ptr(v, ("e", j))]):
                    if o[0] != "ret":
                        raise Unsupported("panic while cloning")
                    nxt.append((s2, xs + (o[1],)))
            acc = nxt
        return [(s, ("ret", ("arr", xs))) for s, xs in acc]
    if info.get("has_body"):
        return None
    raise Unsupported("clone of %s" % ip.tname(ty))


@T(("ToOwned", "to_owned", "str"), ("ToOwned", "to_owned", "*"))
def m_to_owned(ip, st, info, args):
    return ret(st, ip.load(st, st.res(args[0])))


@T(("Deref", "deref", "*"), ("DerefMut", "deref_mut", "*"), ("AsRef", "as_ref", "Vec"), ("AsRef", "as_ref", "String"), ("AsRef", "as_ref", "str"),
   ("Borrow", "borrow", "*"), ("AsMut", "as_mut", "Vec"), ("BorrowMut", "borrow_mut", "*"), ("AsRef", "as_ref", "slice"),
   ("AsRef", "as_ref", "array"))
def m_deref(ip, st, info, args):
    v = st.res(args[0])
    ty = ip.canon(info["self_ty"])
    if ip.adt(ty) == "alloc::boxed::Box":
        b = ip.load(st, v)
        return ret(st, ("ptr", b[1], ()) if b[0] == "box" else v)
    if ip.kind(ty) == "ref":
        return ret(st, ip.load(st, v))
    return ret(st, v)


@T(("From", "from", "String"), ("From", "from", "Vec"), ("From", "from", "VecDeque"))
def m_string_from(ip, st, info, args):
    v = st.res(args[0])
    if v[0] == "ptr":
        v = ip.load(st, v)
    if v[0] == "box":
        v = ip.load(st, v)
    if v[0] == "i":
        v = S(chr(v[1]))
    return ret(st, v)


@T(("From", "from", "Box"))
def m_box_from(ip, st, info, args):
    return ret(st, ("box", ip.new_cell(st, st.res(args[0]))))


@T(("TryFrom", "try_from", "array"))
def m_arr_tryfrom(ip, st, info, args):
    R = rty(ip, info)
    v = st.res(args[0])
    src = v
    if v[0] == "ptr":
        src = ip.load(st, v)
    xs = ip.content(st, src)
    n = ip.tinfo(ip.canon(info["self_ty"]))["len"]
    if len(xs) == n:
        return ret(st, ip.mk(R, "Ok", (("arr", xs),)))
    return ret(st, ip.mk(R, "Err", (v,)))


@P("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def m_box_new(ip, st, info, args):
    return ret(st, ("box", ip.new_cell(st, st.res(args[0]))))


@P("alloc::boxed::Box::new_uninit")
def m_box_uninit(ip, st, info, args):
    return ret(st, ("box", ip.new_cell(st, ("uninit",))))


@P("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl>::into_vec", "alloc::slice::hack::into_vec")
def m_box_vec(ip, st, info, args):
    v = st.res(args[0])
    v = ip.load(st, v)
    return ret(st, ("arr", ip.content(st, v)))


@P("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def m_id(ip, st, info, args):
    return ret(st, st.res(args[0]))


@P("core::mem::take", "core::mem::replace")
def m_take(ip, st, info, args):
    p = st.res(args[0])
    old = ip.load(st, p)
    if len(args) == 2:
        ip.store(st, p, st.res(args[1]))
        return ret(st, old)
    pt = ip.targs_of_inst(info)[0]
    if ip.is_seq(pt):
        new = ("arr", ())
    elif ip.is_text(pt):
        new = S()
    else:
        m = ip.trait_method("core::default::Default", "default", pt)
        out = []
        for s, o in ip.call(st, m, []):
            if o[0] == "ret":
                ip.store(s, p, o[1])
                out.append((s, ("ret", old)))
            else:
                out.append((s, o))
        return out
    ip.store(st, p, new)
    return ret(st, old)


@P("core::mem::swap")
def m_swap(ip, st, info, args):
    a, b = st.res(args[0]), st.res(args[1])
    x, y = ip.load(st, a), ip.load(st, b)
    ip.store(st, a, y)
    ip.store(st, b, x)
    return ret(st, UNIT)


@P("core::mem::drop", "core::mem::forget")
def m_drop(ip, st, info, args):
    return ret(st, UNIT)


@T(("Default", "default", "Vec"), ("Default", "default", "VecDeque"))
def m_def_vec(ip, st, info, args):
    return ret(st, ("arr", ()))


@T(("Default", "default", "String"))
def m_def_string(ip, st, info, args):
    return ret(st, S())


# ------------------------------------------------------------------ sequences
VEC = "alloc::vec::Vec"
VD = "alloc::collections::vec_deque::VecDeque"


def both(*names):
    return [n for m in names for n in ("%s::%s" % (VEC, m), "%s::%s" % (VD, m))]


@P(*both("new", "with_capacity"))
def m_vec_new(ip, st, info, args):
    return ret(st, ("arr", ()))


@P(*both("reserve", "shrink_to_fit", "reserve_exact"))
def m_vec_noop(ip, st, info, args):
    return ret(st, UNIT)


@P(VEC + "::push", VD + "::push_back")
def m_push(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    ip.store(st, p, ("arr", xs + (st.res(args[1]),)))
    return ret(st, UNIT)


@P(VD + "::push_front")
def m_push_front(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    ip.store(st, p, ("arr", (st.res(args[1]),) + xs))
    return ret(st, UNIT)


@P(VEC + "::pop", VD + "::pop_back")
def m_pop(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    if not xs:
        return ret(st, none(ip, R))
    ip.store(st, p, ("arr", xs[:-1]))
    return ret(st, some(ip, R, xs[-1]))


@P(VD + "::pop_front")
def m_pop_front(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    if not xs:
        return ret(st, none(ip, R))
    ip.store(st, p, ("arr", xs[1:]))
    return ret(st, some(ip, R, xs[0]))


def panic(ip, st, kind, msg, info):
    return [(st, ("panic", kind, msg, info["path"], tuple(ip.stack) if ip else ()))]


@P(VEC + "::remove", VEC + "::swap_remove")
def m_remove(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    n = const_int(ip, st, args[1])
    if n >= len(xs):
        return panic(ip, st, "bounds", "remove", info)
    if info["path"].endswith("swap_remove"):
        ys = list(xs)
        ys[n] = ys[-1]
        ys = tuple(ys[:-1])
    else:
        ys = xs[:n] + xs[n + 1:]
    ip.store(st, p, ("arr", ys))
    return ret(st, xs[n])


@P(VD + "::remove", VD + "::swap_remove_back")
def m_vd_remove(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    n = const_int(ip, st, args[1])
    if n >= len(xs):
        return ret(st, none(ip, R))
    ip.store(st, p, ("arr", xs[:n] + xs[n + 1:]))
    return ret(st, some(ip, R, xs[n]))


@P(*both("insert"))
def m_insert(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    n = const_int(ip, st, args[1])
    if n > len(xs):
        return panic(ip, st, "bounds", "insert", info)
    ip.store(st, p, ("arr", xs[:n] + (st.res(args[2]),) + xs[n:]))
    return ret(st, UNIT)


@P(*both("truncate"))
def m_truncate(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    ip.store(st, p, ("arr", xs[:const_int(ip, st, args[1])]))
    return ret(st, UNIT)


@P(*both("clear"))
def m_clear(ip, st, info, args):
    ip.store(st, st.res(args[0]), ("arr", ()))
    return ret(st, UNIT)


@P(*both("append"))
def m_append(ip, st, info, args):
    p, q = st.res(args[0]), st.res(args[1])
    xs, ys = ip.content(st, ip.load(st, p)), ip.content(st, ip.load(st, q))
    ip.store(st, p, ("arr", xs + ys))
    ip.store(st, q, ("arr", ()))
    return ret(st, UNIT)


@P(*both("split_off"))
def m_split_off(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    n = const_int(ip, st, args[1])
    if n > len(xs):
        return panic(ip, st, "bounds", "split_off", info)
    ip.store(st, p, ("arr", xs[:n]))
    return ret(st, ("arr", xs[n:]))


@P(*both("extend_from_slice"))
def m_extend_slice(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    ys = ip.content(st, ip.load(st, st.res(args[1])))
    ip.store(st, p, ("arr", xs + ys))
    return ret(st, UNIT)


@P(*both("len"), "core::slice::<impl>::len")
def m_len(ip, st, info, args):
    return ret(st, I(len(ip.content(st, ip.load(st, st.res(args[0])))), "usize"))


@P(*both("is_empty"), "core::slice::<impl>::is_empty")
def m_is_empty(ip, st, info, args):
    return ret(st, I(int(not ip.content(st, ip.load(st, st.res(args[0])))), "bool"))


@P(VEC + "::as_slice", VEC + "::as_mut_slice", VD + "::make_contiguous", "alloc::string::String::as_str", "core::array::<impl>::as_slice",
   "alloc::string::String::as_mut_str")
def m_same(ip, st, info, args):
    return ret(st, st.res(args[0]))


@P(VEC + "::into_boxed_slice")
def m_boxed(ip, st, info, args):
    return ret(st, ("box", ip.new_cell(st, st.res(args[0]))))


@P("alloc::slice::<impl>::to_vec")
def m_to_vec(ip, st, info, args):
    return ret(st, ("arr", ip.content(st, ip.load(st, st.res(args[0])))))


def elem_ptrs(ip, st, p):
    n = len(ip.content(st, ip.load(st, p)))
    return tuple(ip.sub_ptr(p, ("e", j)) for j in range(n))


@P("core::slice::<impl>::iter", "core::slice::<impl>::iter_mut", VD + "::iter", VD + "::iter_mut")
def m_iter(ip, st, info, args):
    return ret(st, ("iter", elem_ptrs(ip, st, st.res(args[0]))))


@P("core::slice::<impl>::reverse")
def m_reverse(ip, st, info, args):
    p = st.res(args[0])
    ip.store(st, p, ("arr", tuple(reversed(ip.content(st, ip.load(st, p))))))
    return ret(st, UNIT)


@P("core::slice::<impl>::swap", VD + "::swap")
def m_slice_swap(ip, st, info, args):
    p = st.res(args[0])
    xs = list(ip.content(st, ip.load(st, p)))
    a, b = const_int(ip, st, args[1]), const_int(ip, st, args[2])
    if max(a, b) >= len(xs):
        return panic(ip, st, "bounds", "swap", info)
    xs[a], xs[b] = xs[b], xs[a]
    ip.store(st, p, ("arr", tuple(xs)))
    return ret(st, UNIT)


def opt_elem(which):
    def f(ip, st, info, args):
        p = st.res(args[0])
        R = rty(ip, info)
        n = len(ip.content(st, ip.load(st, p)))
        j = which(ip, st, n, args)
        if j is None or not 0 <= j < n:
            return ret(st, none(ip, R))
        return ret(st, some(ip, R, ip.sub_ptr(p, ("e", j))))
    return f


for _n, _w in (("first", lambda ip, st, n, a: 0), ("last", lambda ip, st, n, a: n - 1), ("first_mut", lambda ip, st, n, a: 0),
               ("last_mut", lambda ip, st, n, a: n - 1)):
    P("core::slice::<impl>::" + _n)(opt_elem(_w))
for _n, _w in (("front", lambda ip, st, n, a: 0), ("back", lambda ip, st, n, a: n - 1), ("front_mut", lambda ip, st, n, a: 0),
               ("back_mut", lambda ip, st, n, a: n - 1), ("get", lambda ip, st, n, a: const_int(ip, st, a[1])),
               ("get_mut", lambda ip, st, n, a: const_int(ip, st, a[1]))):
    P(VD + "::" + _n)(opt_elem(_w))


def sub_range(ip, st, idx, n):
    """(lo, hi) of a range value over n elements, or an int"""
    v = st.res(idx)
    if v[0] == "i":
        return v[1]
    if v[0] == "adt":
        name = ip.adt(v[1]).split("::")[-1]
        fs = [const_int(ip, st, f) if st.res(f)[0] == "i" and st.res(f)[2] == "usize" else None for f in v[3]]
        if name == "Range":
            return fs[0], fs[1]
        if name == "RangeFrom":
            return fs[0], n
        if name == "RangeTo":
            return 0, fs[0]
        if name == "RangeInclusive":
            return fs[0], fs[1] + 1
        if name == "RangeToInclusive":
            return 0, fs[0] + 1
        if name == "RangeFull":
            return 0, n
    raise Unsupported("index value")


@P("core::slice::<impl>::get", "core::slice::<impl>::get_mut")
def m_get(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    n = len(ip.content(st, ip.load(st, p)))
    r = sub_range(ip, st, args[1], n)
    if isinstance(r, int):
        return ret(st, some(ip, R, ip.sub_ptr(p, ("e", r))) if r < n else none(ip, R))
    if r[0] <= r[1] <= n:
        return ret(st, some(ip, R, ip.sub_ptr(p, ("sub", r[0], r[1]))))
    return ret(st, none(ip, R))


@T(("Index", "index", "Vec"), ("IndexMut", "index_mut", "Vec"), ("Index", "index", "VecDeque"), ("IndexMut", "index_mut", "VecDeque"),
   ("Index", "index", "slice"), ("IndexMut", "index_mut", "slice"), ("Index", "index", "array"), ("IndexMut", "index_mut", "array"))
def m_index(ip, st, info, args):
    p = st.res(args[0])
    n = len(ip.content(st, ip.load(st, p)))
    r = sub_range(ip, st, args[1], n)
    if isinstance(r, int):
        if r >= n:
            return panic(ip, st, "bounds", "index out of bounds", info)
        return ret(st, ip.sub_ptr(p, ("e", r)))
    if not r[0] <= r[1] <= n:
        return panic(ip, st, "bounds", "range out of bounds", info)
    return ret(st, ip.sub_ptr(p, ("sub", r[0], r[1])))


@P("core::slice::<impl>::split_first", "core::slice::<impl>::split_last")
def m_split_first(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    n = len(ip.content(st, ip.load(st, p)))
    if n == 0:
        return ret(st, none(ip, R))
    if info["path"].endswith("first"):
        v = ("tup", (ip.sub_ptr(p, ("e", 0)), ip.sub_ptr(p, ("sub", 1, n))))
    else:
        v = ("tup", (ip.sub_ptr(p, ("e", n - 1)), ip.sub_ptr(p, ("sub", 0, n - 1))))
    return ret(st, some(ip, R, v))


@P("core::slice::<impl>::split_at")
def m_split_at(ip, st, info, args):
    p = st.res(args[0])
    n = len(ip.content(st, ip.load(st, p)))
    k = const_int(ip, st, args[1])
    if k > n:
        return panic(ip, st, "bounds", "split_at", info)
    return ret(st, ("tup", (ip.sub_ptr(p, ("sub", 0, k)), ip.sub_ptr(p, ("sub", k, n)))))


@P(*both("drain"))
def m_drain(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    r = sub_range(ip, st, args[1], len(xs))
    if not r[0] <= r[1] <= len(xs):
        return panic(ip, st, "bounds", "drain", info)
    ip.store(st, p, ("arr", xs[:r[0]] + xs[r[1]:]))
    return ret(st, ("iter", xs[r[0]:r[1]]))


@P("alloc::vec::from_elem")
def m_from_elem(ip, st, info, args):
    return ret(st, ("arr", (st.res(args[0]),) * const_int(ip, st, args[1], "length")))


@P("core::array::<impl>::map")
def m_array_map(ip, st, info, args):
    xs = ip.content(st, st.res(args[0]))
    acc = [(st, ("ret", ()))]
    for x in xs:
        acc = ip.bind_outcomes(acc, lambda s, ys, x=x: [(s2, ("ret", ys + (o[1],))) if o[0] == "ret" else (s2, o)
                                                       for s2, o in ip.call_value(s, args[1], [x])])
    return ip.bind_outcomes(acc, lambda s, ys: ret(s, ("arr", ys)))


# ------------------------------------------------------------------ iterators
@T(("IntoIterator", "into_iter", "Vec"), ("IntoIterator", "into_iter", "VecDeque"), ("IntoIterator", "into_iter", "array"))
def m_into_iter(ip, st, info, args):
    return ret(st, ("iter", ip.content(st, st.res(args[0]))))


@T(("IntoIterator", "into_iter", "ref"))
def m_into_iter_ref(ip, st, info, args):
    p = st.res(args[0])
    if p[0] == "ptr" and st.res(ip.load(st, p))[0] in ("arr", "sym"):
        T = ip.elem(ip.canon(info["self_ty"]))
        if ip.is_seq(T):
            return ret(st, ("iter", elem_ptrs(ip, st, p)))
    if p[0] == "sym":
        raise Unsupported("iteration over an unknown reference")
    return None


@T(("Iterator", "next", "@iter"))
def m_next(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    if not xs:
        return ret(st, none(ip, R))
    ip.store(st, p, ("iter", xs[1:]))
    return ret(st, some(ip, R, xs[0]))


@T(("DoubleEndedIterator", "next_back", "@iter"))
def m_next_back(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    if not xs:
        return ret(st, none(ip, R))
    ip.store(st, p, ("iter", xs[:-1]))
    return ret(st, some(ip, R, xs[-1]))


@T(("Iterator", "size_hint", "@iter"))
def m_size_hint(ip, st, info, args):
    xs = ip.content(st, ip.load(st, st.res(args[0])))
    R = rty(ip, info)
    n = I(len(xs), "usize")
    return ret(st, ("tup", (n, some(ip, ip.fty(R, 0, 1), n))))


@T(("Iterator", "count", "@iter"))
def m_count(ip, st, info, args):
    return ret(st, I(len(ip.content(st, st.res(args[0]))), "usize"))


@T(("ExactSizeIterator", "len", "@iter"))
def m_iter_len(ip, st, info, args):
    return ret(st, I(len(ip.content(st, ip.load(st, st.res(args[0])))), "usize"))


@T(("ExactSizeIterator", "is_empty", "@iter"))
def m_iter_empty(ip, st, info, args):
    return ret(st, I(int(not ip.content(st, ip.load(st, st.res(args[0])))), "bool"))


@T(("Clone", "clone", "@iter"))
def m_iter_clone(ip, st, info, args):
    return ret(st, ip.load(st, st.res(args[0])))


@T(("Iterator", "nth", "@iter"))
def m_nth(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    xs = ip.content(st, ip.load(st, p))
    n = const_int(ip, st, args[1])
    ip.store(st, p, ("iter", xs[n + 1:]))
    return ret(st, some(ip, R, xs[n]) if n < len(xs) else none(ip, R))


@T(("Iterator", "last", "@iter"))
def m_last(ip, st, info, args):
    xs = ip.content(st, st.res(args[0]))
    R = rty(ip, info)
    return ret(st, some(ip, R, xs[-1]) if xs else none(ip, R))


def fold_items(ip, st, xs, init, f):
    """f(state, acc, item) -> outcomes; left fold over the outcomes"""
    acc = [(st, ("ret", init))]
    for x in xs:
        acc = ip.bind_outcomes(acc, lambda s, a, x=x: f(s, a, x))
    return acc


@T(("Iterator", "fold", "@iter"))
def m_fold(ip, st, info, args):
    return fold_items(ip, st, ip.content(st, st.res(args[0])), st.res(args[1]),
                      lambda s, a, x: ip.call_value(s, args[2], [a, x]))


@T(("DoubleEndedIterator", "rfold", "@iter"))
def m_rfold(ip, st, info, args):
    return fold_items(ip, st, reversed(ip.content(st, st.res(args[0]))), st.res(args[1]),
                      lambda s, a, x: ip.call_value(s, args[2], [a, x]))


@T(("Iterator", "for_each", "@iter"))
def m_for_each(ip, st, info, args):
    # the closure's captured state must be shared between the calls
    f = ip.ref(st, st.res(args[1]))
    return ip.bind_outcomes(fold_items(ip, st, ip.content(st, st.res(args[0])), UNIT,
                                       lambda s, a, x: ip.call_value(s, f, [x])), lambda s, v: ret(s, UNIT))


def short(ip, st, info, args, stop, end):
    """any / all: args (&mut iter, f)"""
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    f = ip.ref(st, st.res(args[1]))

    def go(s, j):
        if j == len(xs):
            ip.store(s, p, ("iter", ()))
            return ret(s, end)
        out = []
        for s2, o in ip.call_value(s, f, [xs[j]]):
            if o[0] != "ret":
                out.append((s2, o))
                continue

            def dec(s3, b=o[1], j=j):
                if ip.truth(s3, b) == stop:
                    ip.store(s3, p, ("iter", xs[j + 1:]))
                    return ret(s3, ("i", int(stop), "bool"))
                return go(s3, j + 1)
            out.extend(ip.with_splits(s2, dec))
        return out
    return go(st, 0)


@T(("Iterator", "any", "@iter"))
def m_any(ip, st, info, args):
    return short(ip, st, info, args, True, FALSE)


@T(("Iterator", "all", "@iter"))
def m_all(ip, st, info, args):
    return short(ip, st, info, args, False, TRUE)


@T(("Iterator", "try_fold", "@iter"))
def m_try_fold(ip, st, info, args):
    """interprets the Try type by its variants: Option, Result, ControlFlow"""
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    f = ip.ref(st, st.res(args[2]))
    R = rty(ip, info)
    good = {"Option": "Some", "Result": "Ok", "ControlFlow": "Continue", "NeverShortCircuit": "NeverShortCircuit"}.get(tkind(ip, R))
    if good is None:
        raise Unsupported("try_fold with %s" % ip.tname(R))

    def go(s, a, j):
        if j == len(xs):
            ip.store(s, p, ("iter", ()))
            return ret(s, ip.mk(R, good, (a,)))
        out = []
        for s2, o in ip.call_value(s, f, [a, xs[j]]):
            if o[0] != "ret":
                out.append((s2, o))
                continue

            def dec(s3, v=o[1], j=j):
                v = s3.res(v)
                if v[0] == "sym":
                    ip.split_enum(s3, v)
                if ip.variants(v[1])[v[2]]["name"] == good:
                    return go(s3, v[3][0], j + 1)
                ip.store(s3, p, ("iter", xs[j + 1:]))
                return ret(s3, ("adt", R, v[2], v[3]))
            out.extend(ip.with_splits(s2, dec))
        return out
    return go(st, st.res(args[1]), 0)


@T(("Iterator", "position", "@iter"), ("Iterator", "find", "@iter"))
def m_position(ip, st, info, args):
    p = st.res(args[0])
    xs = ip.content(st, ip.load(st, p))
    f = ip.ref(st, st.res(args[1]))
    R = rty(ip, info)
    find_ = info["method"] == "find"

    def go(s, j):
        if j == len(xs):
            ip.store(s, p, ("iter", ()))
            return ret(s, none(ip, R))
        arg = ip.ref(s, xs[j]) if find_ else xs[j]
        out = []
        for s2, o in ip.call_value(s, f, [arg]):
            if o[0] != "ret":
                out.append((s2, o))
                continue

            def dec(s3, b=o[1], j=j):
                if ip.truth(s3, b):
                    ip.store(s3, p, ("iter", xs[j + 1:]))
                    return ret(s3, some(ip, R, xs[j] if find_ else I(j, "usize")))
                return go(s3, j + 1)
            out.extend(ip.with_splits(s2, dec))
        return out
    return go(st, 0)


def int_range(ip, st, v):
    return st.res(v[3][0]), st.res(v[3][1])


def is_int_range(ip, info):
    Ty = ip.canon(info["self_ty"])
    a = ip.targs(Ty)
    return a and a[0] in PRIMS and a[0] not in ("bool",)


@T(("Iterator", "next", "Range"), ("Iterator", "next", "RangeInclusive"), ("Iterator", "next", "RangeFrom"))
def m_range_next(ip, st, info, args):
    if not is_int_range(ip, info):
        return None
    p = st.res(args[0])
    v = ip.expand(st, ip.load(st, p))
    R = rty(ip, info)
    t = ip.targs(v[1])[0]
    kind = ip.adt(v[1]).split("::")[-1]
    lo = st.res(v[3][0])
    if kind == "RangeFrom":
        nx, fl = ip.int_op(st, "add", lo, I(1, t), t, True)
        if ip.truth(st, fl):
            return panic(ip, st, "overflow", "range", info)
        ip.store(st, p, ("adt", v[1], 0, (nx,)))
        return ret(st, some(ip, R, lo))
    hi = st.res(v[3][1])
    if kind == "Range":
        if not ip.truth(st, ip.int_cmp(st, "Lt", lo, hi)):
            return ret(st, none(ip, R))
        ip.store(st, p, ("adt", v[1], 0, (ip.arith("add", lo, I(1, t), t), hi)))
        return ret(st, some(ip, R, lo))
    ex = v[3][2]
    if ip.truth(st, st.res(ex)) or ip.truth(st, ip.int_cmp(st, "Lt", hi, lo)):
        return ret(st, none(ip, R))
    if ip.truth(st, ip.int_cmp(st, "Lt", lo, hi)):
        ip.store(st, p, ("adt", v[1], 0, (ip.arith("add", lo, I(1, t), t), hi, FALSE)))
    else:
        ip.store(st, p, ("adt", v[1], 0, (lo, hi, TRUE)))
    return ret(st, some(ip, R, lo))


@T(("DoubleEndedIterator", "next_back", "Range"), ("DoubleEndedIterator", "next_back", "RangeInclusive"))
def m_range_next_back(ip, st, info, args):
    if not is_int_range(ip, info):
        return None
    p = st.res(args[0])
    v = ip.expand(st, ip.load(st, p))
    R = rty(ip, info)
    t = ip.targs(v[1])[0]
    lo, hi = int_range(ip, st, v)
    if ip.adt(v[1]).endswith("::Range"):
        if not ip.truth(st, ip.int_cmp(st, "Lt", lo, hi)):
            return ret(st, none(ip, R))
        h = ip.arith("sub", hi, I(1, t), t)
        ip.store(st, p, ("adt", v[1], 0, (lo, h)))
        return ret(st, some(ip, R, h))
    if ip.truth(st, st.res(v[3][2])) or ip.truth(st, ip.int_cmp(st, "Lt", hi, lo)):
        return ret(st, none(ip, R))
    if ip.truth(st, ip.int_cmp(st, "Lt", lo, hi)):
        ip.store(st, p, ("adt", v[1], 0, (lo, ip.arith("sub", hi, I(1, t), t), FALSE)))
    else:
        ip.store(st, p, ("adt", v[1], 0, (lo, hi, TRUE)))
    return ret(st, some(ip, R, hi))


def drive(ip, st, Ity, it, step, init):
    """call Iterator::next on the iterator value until it ends;
    step(state, acc, item) -> outcomes ('ret', acc) or ('stop', value) or panics"""
    m = ip.trait_method("core::iter::traits::iterator::Iterator", "next", Ity)
    cell = ip.new_cell(st, it)
    p = ("ptr", cell, ())

    def go(s, acc, n):
        if n > ip.loop_limit:
            ip.truncated += 1
            return [(s, ("cut", "iterator"))]
        out = []
        for s2, o in ip.call(s, m, [p]):
            if o[0] != "ret":
                out.append((s2, o))
                continue

            def dec(s3, v=o[1]):
                v = s3.res(v)
                if v[0] == "sym":
                    ip.split_enum(s3, v)
                if ip.variants(v[1])[v[2]]["name"] == "None":
                    return ret(s3, acc)
                rs = []
                for s4, o4 in step(s3, acc, v[3][0]):
                    if o4[0] == "ret":
                        rs.extend(go(s4, o4[1], n + 1))
                    elif o4[0] == "stop":
                        rs.append((s4, ("stop", o4[1])))
                    else:
                        rs.append((s4, o4))
                return rs
            out.extend(ip.with_splits(s2, dec))
        return out
    return go(st, init, 0)


def into_iter_of(ip, st, info_args_T, v):
    m = ip.trait_method("core::iter::traits::collect::IntoIterator", "into_iter", info_args_T)
    return ip.call(st, m, [v]), ip.ret_ty(m)


def from_iter_generic(ip, st, Target, Ity, it):
    """collect the iterator value `it` (of type Ity) into Target -> outcomes"""
    k = tkind(ip, Target)
    if ip.is_seq(Target):
        return ip.bind_outcomes(drive(ip, st, Ity, it, lambda s, a, x: ret(s, a + (x,)), ()), lambda s, a: ret(s, ("arr", a)))
    if k == "String":
        def step(s, a, x):
            x = deref(ip, s, x)
            if x[0] == "i":
                x = S(chr(x[1]))
            return ret(s, S(*(a[1] + ip.text(s, x))))
        return drive(ip, st, Ity, it, step, S())
    if k in ("Result", "Option"):
        good = "Ok" if k == "Result" else "Some"

        def step(s, a, x):
            def dec(s3):
                v = s3.res(x)
                if v[0] == "sym":
                    ip.split_enum(s3, v)
                if ip.variants(v[1])[v[2]]["name"] == good:
                    return ret(s3, a + (v[3][0],))
                return [(s3, ("stop", v))]
            return ip.with_splits(st if s is None else s, dec)
        outs = drive(ip, st, Ity, it, step, ())
        inner = ip.targs(Target)[0]
        res = []
        for s, o in outs:
            if o[0] == "ret":
                if not ip.is_seq(inner):
                    raise Unsupported("collect into %s" % ip.tname(Target))
                res.append((s, ("ret", ip.mk(Target, good, (("arr", o[1]),)))))
            elif o[0] == "stop":
                v = o[1]
                res.append((s, ("ret", ("adt", Target, v[2], v[3]))))
            else:
                res.append((s, o))
        return res
    raise Unsupported("collect into %s" % ip.tname(Target))


@T(("FromIterator", "from_iter", "*"))
def m_from_iter(ip, st, info, args):
    Target = ip.canon(info["self_ty"])
    It = ip.canon(info["args"][-1])
    outs, Ity = into_iter_of(ip, st, It, st.res(args[0]))
    return ip.bind_outcomes(outs, lambda s, v: from_iter_generic(ip, s, Target, Ity, v))


@T(("Iterator", "collect", "*"))
def m_collect(ip, st, info, args):
    Ity = ip.canon(info["self_ty"])
    Target = rty(ip, info)
    if tkind(ip, Target) not in ("Vec", "VecDeque", "String", "Result", "Option"):
        return None
    return from_iter_generic(ip, st, Target, Ity, st.res(args[0]))


@T(("Extend", "extend", "Vec"), ("Extend", "extend", "VecDeque"), ("Extend", "extend", "String"))
def m_extend(ip, st, info, args):
    p = st.res(args[0])
    It = ip.canon(info["args"][-1])
    outs, Ity = into_iter_of(ip, st, It, st.res(args[1]))
    text = ip.is_text(ip.canon(info["self_ty"]))

    def fin(s, v):
        def step(s2, a, x):
            if text:
                x = deref(ip, s2, x)
                if x[0] == "i":
                    x = S(chr(x[1]))
                ip.store(s2, p, S(*(ip.text(s2, ip.load(s2, p)) + ip.text(s2, x))))
            else:
                y = s2.res(x)
                if y[0] == "ptr":
                    E = ip.seq_elem(ip.canon(info["self_ty"]))
                    if ip.kind(E) != "ref":
                        y = ip.load(s2, y)
                ip.store(s2, p, ("arr", ip.content(s2, ip.load(s2, p)) + (y,)))
            return ret(s2, UNIT)
        return ip.bind_outcomes(drive(ip, s, Ity, v, step, UNIT), lambda s3, _: ret(s3, UNIT))
    return ip.bind_outcomes(outs, fin)


# ------------------------------------------------------------------ numbers
def self_prim(ip, info):
    return ip.canon(info["self_ty"])


@N(("int", "abs"), ("int", "unsigned_abs"))
def m_abs(ip, st, info, args):
    t = self_prim(ip, info)
    v = st.res(args[0])
    un = info["method"] == "unsigned_abs"
    rt = "u" + t[1:] if un else t
    if v[0] == "i":
        if abs(v[1]) > PRIMS[rt][1]:
            return panic(ip, st, "overflow", "abs", info)
        return ret(st, I(abs(v[1]), rt))
    lo, hi = ip.itv(st, v)
    if lo >= 0:
        return ret(st, v if not un else ip.cast_int(st, v, rt))
    if hi < 0 or hi <= 0:
        if lo == PRIMS[t][0] and lo not in st.ne.get(v, ()):
            if not un:
                raise NeedSplit([[("ne", v, lo)], [("bind", v, I(lo, t))]])
        e = sym("neg", (v,), t) if not (v[0] == "sym" and v[1] == "neg") else v[2][0]
        return ret(st, e if not un else sym("cast", (sym("neg", (v,), "i128"),), rt))
    raise NeedSplit([[("rng", v, 0, hi)], [("rng", v, lo, -1)]])


@N(("int", "signum"))
def m_signum(ip, st, info, args):
    t = self_prim(ip, info)
    v = st.res(args[0])
    lo, hi = ip.itv(st, v)
    if lo > 0:
        return ret(st, I(1, t))
    if hi < 0:
        return ret(st, I(-1, t))
    if lo == hi == 0:
        return ret(st, I(0, t))
    alts = []
    if hi > 0:
        alts.append([("rng", v, max(lo, 1), hi)])
    if lo <= 0 <= hi:
        alts.append([("rng", v, 0, 0)])
    if lo < 0:
        alts.append([("rng", v, lo, min(hi, -1))])
    raise NeedSplit(alts)


@N(("int", "is_positive"))
def m_is_pos(ip, st, info, args):
    return ret(st, ip.int_cmp(st, "Gt", st.res(args[0]), I(0, self_prim(ip, info))))


@N(("int", "is_negative"))
def m_is_neg(ip, st, info, args):
    return ret(st, ip.int_cmp(st, "Lt", st.res(args[0]), I(0, self_prim(ip, info))))


def checked(op, mode):
    def f(ip, st, info, args):
        t = self_prim(ip, info)
        a, b = st.res(args[0]), st.res(args[1])
        R = rty(ip, info)
        if op in ("div", "rem"):
            if ip.truth(st, ip.int_cmp(st, "Eq", b, I(0, t))):
                if mode == "checked":
                    return ret(st, none(ip, R))
                return panic(ip, st, "divzero", info["method"], info)
        v, fl = ip.int_op(st, op, a, b, t, True)
        if fl == FALSE or not ip.truth(st, fl):
            if mode == "checked":
                return ret(st, some(ip, R, v))
            if mode == "overflowing":
                return ret(st, ("tup", (v, FALSE)))
            return ret(st, v)
        if mode == "checked":
            return ret(st, none(ip, R))
        if mode == "panic":
            return panic(ip, st, "overflow", info["method"], info)
        if mode == "saturating":
            if op == "sub" and PRIMS[t][0] == 0:
                return ret(st, I(0, t))
            return ret(st, sym("sat" + op, (a, b), t))
        w = sym("w" + op, (a, b), t)
        if mode == "overflowing":
            return ret(st, ("tup", (w, TRUE)))
        return ret(st, w)
    return f


for _op in ("add", "sub", "mul", "div", "rem"):
    for _m in ("checked", "wrapping", "saturating", "overflowing"):
        N(("int", "%s_%s" % (_m, _op)))(checked(_op, _m))


def neg_modes(mode):
    def f(ip, st, info, args):
        t = self_prim(ip, info)
        a = st.res(args[0])
        R = rty(ip, info)
        lo = PRIMS[t][0]
        if lo == 0:
            raise Unsupported(info["path"])
        if ip.truth(st, ip.int_cmp(st, "Eq", a, I(lo, t))):
            if mode == "checked":
                return ret(st, none(ip, R))
            if mode == "saturating":
                return ret(st, I(PRIMS[t][1], t))
            return ret(st, a)
        e = I(-a[1], t) if a[0] == "i" else sym("neg", (a,), t)
        return ret(st, some(ip, R, e) if mode == "checked" else e)
    return f


for _m in ("checked", "wrapping", "saturating"):
    N(("int", _m + "_neg"))(neg_modes(_m))


@N(("int", "checked_abs"))
def m_checked_abs(ip, st, info, args):
    t = self_prim(ip, info)
    R = rty(ip, info)
    if ip.truth(st, ip.int_cmp(st, "Eq", st.res(args[0]), I(PRIMS[t][0], t))):
        return ret(st, none(ip, R))
    return [(s, ("ret", some(ip, R, o[1]))) if o[0] == "ret" else (s, o) for s, o in m_abs(ip, st, dict(info, method="abs"), args)]


@N(("int", "abs_diff"))
def m_abs_diff(ip, st, info, args):
    t = self_prim(ip, info)
    a, b = st.res(args[0]), st.res(args[1])
    rt = "u" + t.lstrip("iu")
    if ip.truth(st, ip.int_cmp(st, "Lt", a, b)):
        a, b = b, a
    e = ip.arith("sub", a, b, "i128")
    return ret(st, I(e[1], rt) if e[0] == "i" else sym("cast", (e,), rt))


@N(("int", "pow"))
def m_ipow(ip, st, info, args):
    t = self_prim(ip, info)
    a = st.res(args[0])
    n = const_int(ip, st, args[1], "exponent")
    v = I(1, t)
    for _ in range(n):
        v, fl = ip.int_op(st, "mul", v, a, t, True)
        if fl != FALSE and ip.truth(st, fl):
            return panic(ip, st, "overflow", "pow", info)
    return ret(st, v)


@T(("Ord", "max", "int"), ("Ord", "min", "int"))
def m_max(ip, st, info, args):
    a, b = st.res(args[0]), st.res(args[1])
    lt = ip.truth(st, ip.int_cmp(st, "Lt", a, b))
    return ret(st, (b if lt else a) if info["method"] == "max" else (a if lt else b))


@T(("Ord", "cmp", "int"))
def m_cmp(ip, st, info, args):
    from .interp import models_cmp
    return ret(st, models_cmp(ip, st, deref(ip, st, args[0]), deref(ip, st, args[1]), rty(ip, info)))


@T(("PartialOrd", "partial_cmp", "int"))
def m_pcmp(ip, st, info, args):
    from .interp import models_cmp
    R = rty(ip, info)
    return ret(st, some(ip, R, models_cmp(ip, st, deref(ip, st, args[0]), deref(ip, st, args[1]), ip.targs(R)[0])))


def cmp_model(op):
    def f(ip, st, info, args):
        return ret(st, ip.int_cmp(st, op, deref(ip, st, args[0]), deref(ip, st, args[1])))
    return f


for _m, _op in (("eq", "Eq"), ("ne", "Ne")):
    T(("PartialEq", _m, "int"))(cmp_model(_op))
for _m, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    T(("PartialOrd", _m, "int"))(cmp_model(_op))


def arith_model(op):
    def f(ip, st, info, args):
        t = ip.canon(info["self_ty"])
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        if t not in PRIMS:
            t = ip.elem(t) if ip.kind(t) == "ref" else t
        if t in ("f64", "f32"):
            return ret(st, sym("f" + op, (a, b), t))
        if t not in PRIMS:
            return None
        if op in ("div", "rem"):
            if ip.truth(st, ip.int_cmp(st, "Eq", b, I(0, t))):
                return panic(ip, st, "divzero", op, info)
        v, fl = ip.int_op(st, op, a, b, t, True)
        if fl != FALSE and ip.truth(st, fl):
            return panic(ip, st, "overflow", op, info)
        return ret(st, v)
    return f


for _tr, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    for _k in ("int", "float", "ref"):
        T((_tr, _m, _k))(arith_model(_m))


def assign_model(op):
    def f(ip, st, info, args):
        t = ip.canon(info["self_ty"])
        p = st.res(args[0])
        a, b = ip.load(st, p), deref(ip, st, args[1])
        if t in ("f64", "f32"):
            ip.store(st, p, sym("f" + op, (a, b), t))
            return ret(st, UNIT)
        if op in ("div", "rem") and ip.truth(st, ip.int_cmp(st, "Eq", b, I(0, t))):
            return panic(ip, st, "divzero", op, info)
        v, fl = ip.int_op(st, op, a, b, t, True)
        if fl != FALSE and ip.truth(st, fl):
            return panic(ip, st, "overflow", op, info)
        ip.store(st, p, v)
        return ret(st, UNIT)
    return f


for _tr, _m in (("AddAssign", "add"), ("SubAssign", "sub"), ("MulAssign", "mul"), ("DivAssign", "div"), ("RemAssign", "rem")):
    for _k in ("int", "float"):
        T((_tr, _m + "_assign", _k))(assign_model(_m))


@T(("Neg", "neg", "int"), ("Neg", "neg", "ref"))
def m_neg(ip, st, info, args):
    t = ip.canon(info["self_ty"])
    if ip.kind(t) == "ref":
        t = ip.elem(t)
    a = deref(ip, st, args[0])
    if t in ("f64", "f32"):
        return ret(st, sym("fneg", (a,), t))
    if t not in PRIMS:
        return None
    if ip.truth(st, ip.int_cmp(st, "Eq", a, I(PRIMS[t][0], t))):
        return panic(ip, st, "overflow", "neg", info)
    if a[0] == "i":
        return ret(st, I(-a[1], t))
    return ret(st, a[2][0] if a[1] == "neg" else sym("neg", (a,), t))


def float_fn(name, n):
    def f(ip, st, info, args):
        t = self_prim(ip, info)
        return ret(st, sym(name, tuple(deref(ip, st, a) for a in args[:n]), t))
    return f


for _n, _k in (("abs", 1), ("signum", 1), ("sqrt", 1), ("powi", 2), ("powf", 2), ("floor", 1), ("ceil", 1), ("round", 1), ("trunc", 1),
               ("sin", 1), ("cos", 1), ("exp", 1), ("ln", 1), ("max", 2), ("min", 2), ("mul_add", 3), ("recip", 1), ("fract", 1),
               ("copysign", 2), ("rem_euclid", 2)):
    N(("float", _n))(float_fn("f" + _n, _k))


def float_pred(name):
    def f(ip, st, info, args):
        return ret(st, sym(name, (st.res(args[0]),), "bool"))
    return f


for _n in ("is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive"):
    N(("float", _n))(float_pred("f" + _n))


@N(("float", "total_cmp"))
def m_total_cmp(ip, st, info, args):
    return ret(st, sym("ftotal", (deref(ip, st, args[0]), deref(ip, st, args[1])), rty(ip, info)))


@T(("PartialOrd", "partial_cmp", "float"))
def m_fpcmp(ip, st, info, args):
    R = rty(ip, info)
    O = ip.targs(R)[0]
    a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
    if ip.truth(st, sym("flt", (a, b), "bool")):
        return ret(st, some(ip, R, ip.mk(O, "Less")))
    if ip.truth(st, sym("flt", (b, a), "bool")):
        return ret(st, some(ip, R, ip.mk(O, "Greater")))
    if ip.truth(st, sym("feq", ip.eqargs(a, b), "bool")):
        return ret(st, some(ip, R, ip.mk(O, "Equal")))
    return ret(st, none(ip, R))


def fcmp(op):
    def f(ip, st, info, args):
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        t = {"lt": sym("flt", (a, b), "bool"), "gt": sym("flt", (b, a), "bool"), "le": sym("fle", (a, b), "bool"),
             "ge": sym("fle", (b, a), "bool"), "eq": sym("feq", ip.eqargs(a, b), "bool"),
             "ne": ip.c_not(sym("feq", ip.eqargs(a, b), "bool"))}[op]
        return ret(st, ip.simp_bool(st, t))
    return f


for _m in ("lt", "le", "gt", "ge"):
    T(("PartialOrd", _m, "float"))(fcmp(_m))
for _m in ("eq", "ne"):
    T(("PartialEq", _m, "float"))(fcmp(_m))


# ------------------------------------------------------------------ text
STR = "alloc::string::String"


def text_of(ip, st, v):
    return ip.text(st, deref(ip, st, v))


@P(STR + "::new", STR + "::with_capacity")
def m_str_new(ip, st, info, args):
    return ret(st, S())


@P(STR + "::push_str")
def m_push_str(ip, st, info, args):
    p = st.res(args[0])
    ip.store(st, p, S(*(ip.text(st, ip.load(st, p)) + text_of(ip, st, args[1]))))
    return ret(st, UNIT)


@P(STR + "::push")
def m_push_char(ip, st, info, args):
    p = st.res(args[0])
    c = st.res(args[1])
    piece = chr(c[1]) if c[0] == "i" else ("d", c, "")
    ip.store(st, p, S(*(ip.text(st, ip.load(st, p)) + (piece,))))
    return ret(st, UNIT)


@P(STR + "::insert_str")
def m_insert_str(ip, st, info, args):
    p = st.res(args[0])
    if const_int(ip, st, args[1]) != 0:
        raise Unsupported("insertion into the middle of a text")
    ip.store(st, p, S(*(text_of(ip, st, args[2]) + ip.text(st, ip.load(st, p)))))
    return ret(st, UNIT)


@P(STR + "::insert")
def m_insert_char(ip, st, info, args):
    p = st.res(args[0])
    c = st.res(args[2])
    if const_int(ip, st, args[1]) != 0 or c[0] != "i":
        raise Unsupported("insertion into the middle of a text")
    ip.store(st, p, S(*((chr(c[1]),) + ip.text(st, ip.load(st, p)))))
    return ret(st, UNIT)


@P(STR + "::clear")
def m_str_clear(ip, st, info, args):
    ip.store(st, st.res(args[0]), S())
    return ret(st, UNIT)


@P("core::str::<impl>::len", STR + "::len")
def m_str_len(ip, st, info, args):
    t = text_of(ip, st, args[0])
    if all(isinstance(p, str) for p in t):
        return ret(st, I(len("".join(t).encode()), "usize"))
    return ret(st, sym("strlen", (("s", t),), "usize"))


@P("core::str::<impl>::is_empty", STR + "::is_empty")
def m_str_empty(ip, st, info, args):
    t = text_of(ip, st, args[0])
    if not t:
        return ret(st, TRUE)
    if any(isinstance(p, str) for p in t):
        return ret(st, FALSE)
    return ret(st, sym("streq", ("", t), "bool"))


@P("core::str::<impl>::as_str", "core::str::<impl>::trim", "alloc::str::<impl>::to_owned", "alloc::str::<impl>::into_string", STR + "::into_boxed_str")
def m_str_same(ip, st, info, args):
    if info["path"].endswith(("trim", "as_str")):
        if info["path"].endswith("trim"):
            t = text_of(ip, st, args[0])
            if all(isinstance(p, str) for p in t):
                return ret(st, ip.ref(st, S("".join(t).strip())))
            raise Unsupported("trim")
        return ret(st, st.res(args[0]))
    return ret(st, deref(ip, st, args[0]))


@P("alloc::str::<impl>::repeat")
def m_repeat(ip, st, info, args):
    t = text_of(ip, st, args[0])
    return ret(st, S(*(t * const_int(ip, st, args[1], "count"))))


@P("core::str::<impl>::starts_with", "core::str::<impl>::ends_with", "core::str::<impl>::contains")
def m_starts(ip, st, info, args):
    t = text_of(ip, st, args[0])
    v = deref(ip, st, args[1])
    if v[0] == "i":
        v = S(chr(v[1]))
    n = ip.text(st, v)
    name = info["method"] if "method" in info else info["path"].split("::")[-1]
    if all(isinstance(p, str) for p in t + n):
        t, n = "".join(t), "".join(n)
        return ret(st, I(int({"starts_with": t.startswith, "ends_with": t.endswith, "contains": t.__contains__}[name](n)), "bool"))
    if name == "starts_with" and n and all(isinstance(p, str) for p in n) and t and isinstance(t[0], str) and len(t[0]) >= len(n[0]):
        return ret(st, I(int(t[0].startswith(n[0])), "bool"))
    return ret(st, sym(name, (t, n), "bool"))


def str_eq(ip, st, a, b):
    if a == b:
        return TRUE
    if all(isinstance(p, str) for p in a + b):
        return I(int("".join(a) == "".join(b)), "bool")
    a2 = S(*a)[1]
    b2 = S(*b)[1]
    return ip.simp_bool(st, sym("streq", (a2, b2) if repr(a2) <= repr(b2) else (b2, a2), "bool"))


@T(("PartialEq", "eq", "String"), ("PartialEq", "ne", "String"), ("PartialEq", "eq", "str"), ("PartialEq", "ne", "str"))
def m_str_eq(ip, st, info, args):
    r = str_eq(ip, st, text_of(ip, st, args[0]), text_of(ip, st, args[1]))
    return ret(st, r if info["method"] == "eq" else (("i", 1 - r[1], "bool") if r[0] == "i" else ip.c_not(r)))


@P("core::str::<impl>::as_bytes", STR + "::as_bytes")
def m_as_bytes(ip, st, info, args):
    t = text_of(ip, st, args[0])
    if all(isinstance(p, str) for p in t):
        return ret(st, ip.ref(st, ("arr", tuple(I(b, "u8") for b in "".join(t).encode()))))
    return ret(st, st.res(args[0]))      # of an unknown text: only good for comparing


@P(STR + "::into_bytes")
def m_into_bytes(ip, st, info, args):
    t = ip.text(st, st.res(args[0]))
    if all(isinstance(p, str) for p in t):
        return ret(st, ("arr", tuple(I(b, "u8") for b in "".join(t).encode())))
    return ret(st, st.res(args[0]))


def as_text(st, v):
    """bytes that are compared with those of a text"""
    if v[0] == "arr" and all(st.res(x)[0] == "i" and x[2] == "u8" for x in v[1]):
        try:
            return S(bytes(st.res(x)[1] for x in v[1]).decode())
        except UnicodeDecodeError:
            pass
    return v


@T(("PartialEq", "eq", "ref"), ("PartialEq", "ne", "ref"), ("PartialEq", "eq", "slice"), ("PartialEq", "ne", "slice"),
   ("PartialEq", "eq", "Vec"), ("PartialEq", "ne", "Vec"), ("PartialEq", "eq", "array"), ("PartialEq", "ne", "array"))
def m_ref_eq(ip, st, info, args):
    a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
    istext = lambda v: v[0] == "s" or v[0] == "sym" and ip.is_text(v[3])
    if istext(a) and b[0] == "arr":
        b = as_text(st, b)
    elif istext(b) and a[0] == "arr":
        a = as_text(st, a)
    elif info["method"] and (a[0] == "arr" or b[0] == "arr"):
        return None
    if a[0] == "s" or b[0] == "s" or a[0] == "sym" and ip.is_text(a[3]):
        r = str_eq(ip, st, ip.text(st, a), ip.text(st, b))
        return ret(st, r if info["method"] == "eq" else (("i", 1 - r[1], "bool") if r[0] == "i" else ip.c_not(r)))
    return None


@T(("Ord", "cmp", "String"), ("Ord", "cmp", "str"))
def m_str_cmp(ip, st, info, args):
    a, b = text_of(ip, st, args[0]), text_of(ip, st, args[1])
    R = rty(ip, info)
    if ip.truth(st, str_eq(ip, st, a, b)):
        return ret(st, ip.mk(R, "Equal"))
    t = sym("strlt", (a, b), "bool")
    if ip.as_known(st, sym("strlt", (b, a), "bool")):
        return ret(st, ip.mk(R, "Greater"))
    return ret(st, ip.mk(R, "Less" if ip.truth(st, t) else "Greater"))


@T(*[("PartialOrd", m, k) for m in ("lt", "le", "gt", "ge") for k in ("String", "str")])
def m_str_ord(ip, st, info, args):
    a, b = text_of(ip, st, args[0]), text_of(ip, st, args[1])
    if info["method"] in ("gt", "le"):
        a, b = b, a
    # a < b (lt, gt) or not a < b (ge, le)
    if ip.truth(st, str_eq(ip, st, a, b)):
        return ret(st, I(int(info["method"] in ("le", "ge")), "bool"))
    r = not ip.as_known(st, sym("strlt", (b, a), "bool")) and ip.truth(st, sym("strlt", (a, b), "bool"))
    return ret(st, I(int(r == (info["method"] in ("lt", "gt"))), "bool"))


@T(("Add", "add", "String"))
def m_str_add(ip, st, info, args):
    return ret(st, S(*(ip.text(st, st.res(args[0])) + text_of(ip, st, args[1]))))


@T(("AddAssign", "add_assign", "String"))
def m_str_add_assign(ip, st, info, args):
    p = st.res(args[0])
    ip.store(st, p, S(*(ip.text(st, ip.load(st, p)) + text_of(ip, st, args[1]))))
    return ret(st, UNIT)


@P("alloc::slice::<impl>::join", "alloc::slice::<impl>::concat")
def m_join(ip, st, info, args):
    xs = ip.content(st, deref(ip, st, args[0]))
    sep = text_of(ip, st, args[1]) if len(args) > 1 else ()
    out = ()
    for n, x in enumerate(xs):
        if n:
            out += sep
        out += text_of(ip, st, x)
    return ret(st, S(*out))


# ------------------------------------------------------------------ formatting
def parse_template(bs):
    """pieces of a format template: str, or (arg index, flags, width, precision, indirect)"""
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bs[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = int.from_bytes(bs[i:i + 2], "little")
            i += 2
            out.append(bs[i:i + k].decode())
            i += k
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(bs[i:i + 4], "little")
                i += 4
            if n & 2:
                width = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            if n & 8:
                arg = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            out.append((arg, flags, width, prec, (n >> 4) & 3))
            arg += 1


def spec_str(flags, width, prec):
    if flags is None and width is None and prec is None:
        return ""
    s = ""
    if flags is not None:
        # the fill and alignment; that a width or precision is given is said by those
        f = flags & ~0x18000000
        if f != 0x60000020:
            s += "f%x" % f
    if width is not None:
        s += "w%d" % width
    if prec is not None:
        s += ".%d" % prec
    return s


@P("core::fmt::Arguments::new")
def m_args_new(ip, st, info, args):
    t = ip.content(st, deref(ip, st, args[0]))
    bs = bytes(x[1] for x in t)
    vals = [st.res(x) for x in ip.content(st, deref(ip, st, args[1]))]
    pieces = []
    for p in parse_template(bs):
        if isinstance(p, str):
            pieces.append(p)
            continue
        n, flags, width, prec, ind = p
        if ind & 1:
            width = const_int(ip, st, vals[width][1], "width")
        if ind & 2:
            prec = const_int(ip, st, vals[prec][1], "precision")
        a = vals[n]
        if a[0] != "fmtarg":
            raise Unsupported("format argument")
        pieces.append(("a", a, spec_str(flags, width, prec)))
    # the text is produced where the arguments are consumed; rendering is pure, so do it here
    return render_pieces(ip, st, pieces)


def render_pieces(ip, st, pieces):
    def f(s, acc, p):
        if isinstance(p, str):
            return ret(s, acc + (p,))
        _, a, spec = p
        return ip.bind_outcomes(display(ip, s, a[2], a[3], a[1], spec), lambda s2, t: ret(s2, acc + t))
    return ip.bind_outcomes(fold_items(ip, st, pieces, (), f), lambda s, t: ret(s, ("fmtargs", S(*t)[1])))


@P("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def m_args_str(ip, st, info, args):
    return ret(st, ("fmtargs", text_of(ip, st, args[0])))


def arg_model(trait):
    def f(ip, st, info, args):
        T = ip.canon(info["args"][-1])
        return ret(st, ("fmtarg", trait, st.res(args[0]), T))
    return f


for _n, _t in (("new_display", "Display"), ("new_debug", "Debug"), ("new_lower_exp", "LowerExp"), ("new_lower_hex", "LowerHex"),
               ("new_upper_hex", "UpperHex"), ("new_binary", "Binary"), ("new_octal", "Octal"), ("new_upper_exp", "UpperExp"),
               ("new_pointer", "Pointer")):
    P("core::fmt::rt::Argument::" + _n)(arg_model(_t))


@P("core::fmt::rt::Argument::from_usize")
def m_arg_usize(ip, st, info, args):
    return ret(st, ("fmtarg", deref(ip, st, args[0])))


def display(ip, st, p, T, trait, spec):
    """outcomes with the pieces of text of the value behind pointer p"""
    while ip.kind(T) == "ref":
        p = ip.load(st, p)
        T = ip.elem(T)
    if trait != "Display":
        return ret(st, (("d", ip.load(st, p), trait + spec),))
    if ip.is_text(T):
        v = ip.load(st, p)
        if spec:
            return ret(st, (("d", v, spec),))
        return ret(st, ip.text(st, v))
    if isinstance(T, str):
        v = ip.load(st, p)
        if not spec and v[0] == "i":
            if T == "char":
                return ret(st, (chr(v[1]),))
            if T == "bool":
                return ret(st, ("true" if v[1] else "false",))
            return ret(st, (str(v[1]),))
        return ret(st, (("d", v, spec),))
    if ip.adt(T) == "core::fmt::Arguments":
        v = ip.load(st, p)
        return ret(st, v[1])
    if ip.adt(T) == "alloc::boxed::Box":
        b = ip.load(st, p)
        return display(ip, st, ("ptr", b[1], ()), ip.targs(T)[0], trait, spec)
    m = ip.trait_method("core::fmt::Display", "fmt", T)
    if not m["local"]:
        raise Unsupported("text of a %s" % ip.tname(T))
    f = ip.ref(st, ("fmter", (), spec))

    def fin(s, v):
        def dec(s2):
            w = s2.res(v)
            if w[0] == "sym":
                ip.split_enum(s2, w)
            if w[2] != 0:
                return [(s2, ("panic", "panic", "a Display implementation returned an error", m["path"], tuple(ip.stack)))]
            return ret(s2, ip.load(s2, f)[1])
        return ip.with_splits(s, dec)
    return ip.bind_outcomes(ip.call(st, m, [p, f]), fin)


@P("alloc::fmt::format", "alloc::fmt::format::format_inner")
def m_format(ip, st, info, args):
    v = st.res(args[0])
    return ret(st, S(*v[1]))


def fmt_ok(ip, info):
    R = rty(ip, info)
    if ip.adt(R) != "core::result::Result":
        return UNIT
    return ip.mk(R, "Ok", (UNIT,))


@P("core::fmt::Formatter::write_fmt")
def m_write_fmt(ip, st, info, args):
    return emit(ip, st, info, args[0], st.res(args[1])[1])


def emit(ip, st, info, fp, pieces):
    p = st.res(fp)
    f = ip.load(st, p)
    if f[0] == "s":
        ip.store(st, p, S(*(f[1] + pieces)))
    elif f[0] == "fmter":
        ip.store(st, p, ("fmter", S(*(f[1] + pieces))[1], f[2]))
    else:
        raise Unsupported("formatter value %s" % f[0])
    return ret(st, fmt_ok(ip, info))


@P("core::fmt::Formatter::write_str")
def m_write_str(ip, st, info, args):
    return emit(ip, st, info, args[0], text_of(ip, st, args[1]))


@P("core::fmt::Formatter::pad")
def m_pad(ip, st, info, args):
    f = ip.load(st, st.res(args[0]))
    t = text_of(ip, st, args[1])
    if f[0] == "fmter" and f[2]:
        t = (("d", ("s", t), f[2]),)
    return emit(ip, st, info, args[0], t)


@T(("Write", "write_str", "*"))
def m_w_str(ip, st, info, args):
    return emit(ip, st, info, args[0], text_of(ip, st, args[1]))


@T(("Write", "write_char", "*"))
def m_w_char(ip, st, info, args):
    c = st.res(args[1])
    return emit(ip, st, info, args[0], (chr(c[1]) if c[0] == "i" else ("d", c, ""),))


@T(("Write", "write_fmt", "*"))
def m_w_fmt(ip, st, info, args):
    if info["trait"] != "core::fmt::Write":
        raise Unsupported("%s writes outside the program" % info["path"])
    return emit(ip, st, info, args[0], st.res(args[1])[1])


@P("core::fmt::Formatter::alternate")
def m_alt(ip, st, info, args):
    f = ip.load(st, st.res(args[0]))
    return ret(st, I(int("f" in f[2]), "bool")) if f[2] == "" else ret(st, sym("alternate", (("s", (f[2],)),), "bool"))


@P("core::fmt::Formatter::precision", "core::fmt::Formatter::width")
def m_prec(ip, st, info, args):
    f = ip.load(st, st.res(args[0]))
    R = rty(ip, info)
    m = re.search(r"\.(\d+)" if info["path"].endswith("precision") else r"w(\d+)", f[2])
    return ret(st, some(ip, R, I(int(m.group(1)), "u16" if False else ip.targs(R)[0])) if m else none(ip, R))


@T(("Display", "fmt", "*"))
def m_display_fmt(ip, st, info, args):
    """<T as Display>::fmt called directly on a standard type"""
    T = ip.canon(info["self_ty"])
    f = ip.load(st, st.res(args[1]))
    spec = f[2] if f[0] == "fmter" else ""
    return ip.bind_outcomes(display(ip, st, st.res(args[0]), T, "Display", spec),
                            lambda s, t: emit(ip, s, info, args[1], t))


@T(("Debug", "fmt", "*"))
def m_debug_fmt(ip, st, info, args):
    return emit(ip, st, info, args[1], (("d", deref(ip, st, args[0]), "Debug"),))


@T(("ToString", "to_string", "*"), ("SpecToString", "spec_to_string", "*"))
def m_to_string(ip, st, info, args):
    T = ip.canon(info["self_ty"])
    return ip.bind_outcomes(display(ip, st, st.res(args[0]), T, "Display", ""), lambda s, t: ret(s, S(*t)))


@P("std::io::stdio::_print", "std::io::stdio::_eprint")
def m_print(ip, st, info, args):
    st.trace += (("print", info["path"]),)
    return ret(st, UNIT)


# ------------------------------------------------------------------ functions, options
@T(("FnOnce", "call_once", "*"), ("FnMut", "call_mut", "*"), ("Fn", "call", "*"))
def m_call(ip, st, info, args):
    tup = st.res(args[1])
    xs = tup[1] if tup[0] == "tup" else None
    if xs is None:
        raise Unsupported("call with an unknown argument tuple")
    return ip.call_value(st, args[0], list(xs))


@P("core::option::Option::as_deref", "core::option::Option::as_deref_mut")
def m_as_deref(ip, st, info, args):
    p = st.res(args[0])
    R = rty(ip, info)
    v = ip.load(st, p)
    if v[0] == "sym":
        ip.split_enum(st, v)
    if v[2] == 0:
        return ret(st, none(ip, R))
    return ret(st, some(ip, R, ip.sub_ptr(p, ("f", 1, 0))))


@P("core::option::Option::as_slice")
def m_opt_slice(ip, st, info, args):
    raise Unsupported(info["path"])


@P("core::panic::location::Location::caller")
def m_loc(ip, st, info, args):
    return ret(st, ip.ref(st, UNIT))


def intrinsic(ip, st, info, args):
    n = info["intrinsic"]
    if n in ("discriminant_value",):
        v = deref(ip, st, args[0])
        if v[0] == "sym":
            ip.split_enum(st, v)
        return ret(st, I(int(ip.variants(v[1])[v[2]]["discr"]), "isize"))
    if n in ("likely", "unlikely", "black_box"):
        return ret(st, st.res(args[0]))
    if n in ("assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path"):
        return ret(st, UNIT)
    if n in ("ub_checks", "overflow_checks", "contract_checks"):
        return ret(st, FALSE)
    if n in ("needs_drop",):
        return ret(st, FALSE)
    if n in ("abort",):
        return panic(ip, st, "exit", "abort", info)
    raise Unsupported("intrinsic %s" % n)


def shim(ip, st, info, args):
    """FnPtrShim / ClosureOnceShim / CloneShim / DropGlue ..."""
    k = info["shim"]
    if k == "ClosureOnce":
        tup = st.res(args[1])
        return ip.call_value(st, args[0], list(tup[1]))
    if k == "FnPtrShim":
        tup = st.res(args[1])
        return ip.call_value(st, args[0], list(tup[1]))
    if k == "CloneShim":
        return ret(st, ip.load(st, st.res(args[0])))
    if k == "DropGlue":
        return ret(st, UNIT)
    if k in ("Item", "VTableShim", "ReifyShim"):
        return None
    raise Unsupported("shim %s of %s" % (k, info["path"]))
