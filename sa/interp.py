"""Path-partitioned abstract interpretation of MIR over a domain of terms.

Abstract values are hashable tuples:
  ('i', n, T)            integer / bool / char constant of primitive type T
  ('f', bits, T)         float constant
  ('s', pieces)          text: literal strings and symbolic pieces
  ('adt', T, v, fields)  struct (v=0) or enum variant
  ('tup', vals)  ('clo', T, upvars)  ('fn', T)  ('arr', vals)  ('iter', vals)
  ('ptr', cell, path)    pointer to (a part of) a cell
  ('box', cell)
  ('sym', op, args, T)   anything unknown, described by the term that produced it
Vec, VecDeque, arrays and slices share 'arr'; String and str share 's'.
A state partitions the inputs: what is known of terms (bind, rng, ne) holds on that partition.
Unknown branches partition the state (NeedSplit); calls to contract functions ("cuts") give a
term naming the call, so a recursive function is analysed once, against its own contract."""
import time
import re, struct, itertools

PRIMS = {"bool": (0, 1), "char": (0, 0x10FFFF)}
for _b in (8, 16, 32, 64, 128):
    PRIMS["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    PRIMS["u%d" % _b] = (0, (1 << _b) - 1)
PRIMS["isize"] = PRIMS["i64"]
PRIMS["usize"] = PRIMS["u64"]
INF = float("inf")


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    """alts: list of lists of facts; the step is repeated on each partition"""

    def __init__(self, alts):
        self.alts = alts


class Recursion(Exception):
    def __init__(self, info):
        self.info = info


def I(n, T="i64"):
    return ("i", n, T)


KINDS = {"i", "f", "s", "adt", "tup", "clo", "fn", "arr", "iter", "ptr", "box", "sym", "uninit", "fmtargs", "fmtarg"}
TRUE, FALSE = ("i", 1, "bool"), ("i", 0, "bool")
UNIT = ("tup", ())


def S(*pieces):
    out = []
    for p in pieces:
        if p == "":
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return ("s", tuple(out))


def sym(op, args, T):
    return ("sym", op, tuple(args), T)


class State:
    __slots__ = ("cells", "bind", "rng", "ne", "facts", "trace", "fin")

    def __init__(self):
        self.cells, self.bind, self.rng, self.ne = {}, {}, {}, {}
        self.facts, self.trace, self.fin = (), (), False

    def copy(self):
        s = State.__new__(State)
        s.cells, s.bind, s.rng, s.ne = dict(self.cells), dict(self.bind), dict(self.rng), dict(self.ne)
        s.facts, s.trace, s.fin = self.facts, self.trace, self.fin
        return s

    def res(self, v):
        b = self.bind
        while v[0] == "sym" and v in b:
            v = b[v]
        return v


_cell = itertools.count(1)


def deep_contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(deep_contains(w, x) for w in v)
    return False


class Interp:
    def __init__(self, srv):
        self.srv = srv
        self.crate = srv.q(q="crate")
        self.tcache, self.canon_by_name, self.canon_cache = {}, {}, {}
        self.bodies = {}
        self.cuts = []           # (predicate(info), handler)
        self.stack = []
        self.infos = {}
        self.watch = None        # told of every call made from outside, and how it ended
        self.loop_limit = 80
        self.depth_limit = 80           # of calls of a function to itself
        self.unfold = set()      # recursive functions without a contract, followed step by step
        self.stats = {"calls": 0, "paths": 0, "splits": 0, "fns": set(), "steps": 0}
        self.step_budget = 1_200_000
        self.deadline = None
        self.inline_local = True
        self.has_drop_impl = [i["self"] for i in self.crate["impls"] if i["trait"] == "core::ops::drop::Drop"]
        self.prims = self.crate["prims"]
        self.unit_ty = self.canon(self.prims["unit"])
        self.max_depth = 120
        self.truncated = 0
        self.clone_ok = {}
        self.seq_hook = self.inv_hook = None
        self.stop = None
        self.join_above = None   # so many finished paths of a call, and its others are joined at loop heads
        self.same_number = None  # says whether a list holds numbers and expressions / a number has the value of a term
        self.round = None        # told of paths at the heads of loops, to put others in their places
        self.prune = None        # says of a path at the head of a loop whether it cannot happen

    # ---------------------------------------------------------------- types
    def tinfo(self, i):
        t = self.tcache.get(i)
        if t is None:
            t = self.tcache[i] = self.srv.q(q="ty", i=i)
        return t

    def canon(self, i):
        """type index -> primitive name, or one index per type up to lifetimes"""
        if isinstance(i, str):
            return i
        c = self.canon_cache.get(i)
        if c is not None:
            return c
        t = self.tinfo(i)
        if t["k"] in ("bool", "char", "int", "uint", "float"):
            c = t["name"]
        else:
            n = re.sub(r"for<[^>]*> ", "", t["name"])
            n = re.sub(r"'[A-Za-z_{}0-9]+ ", "", n)
            n = re.sub(r"'[A-Za-z_{}0-9]+", "'_", n)
            if t["k"] in ("closure", "fndef", "other"):
                n = n + "#%d" % i
            c = self.canon_by_name.setdefault(n, i)
        self.canon_cache[i] = c
        return c

    def tname(self, T):
        if isinstance(T, str):
            return T
        n = self.tinfo(T)["name"]
        n = re.sub(r"'[A-Za-z_{}0-9]+ ", "", n)
        return n

    def kind(self, T):
        return "prim" if isinstance(T, str) else self.tinfo(T)["k"]

    def adt(self, T):
        """path of the ADT T, or None"""
        if isinstance(T, str):
            return None
        t = self.tinfo(T)
        return t.get("adt") if t["k"] == "adt" else None

    def targs(self, T):
        return [self.canon(x) for x in self.tinfo(T).get("args", [])]

    def elem(self, T):
        t = self.tinfo(T)
        return self.canon(t["elem"])

    def variants(self, T):
        return self.tinfo(T)["variants"]

    def fty(self, T, v, i):
        t = self.tinfo(T)
        if t["k"] == "tuple" or t["k"] == "closure":
            return self.canon(t["elems"][i])
        return self.canon(t["variants"][v]["fields"][i][1])

    def transparent(self, T):
        a = self.adt(T)
        return a in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
                     "core::mem::maybe_dangling::MaybeDangling")

    def is_text(self, T):
        return T == "str" or self.kind(T) == "str" or self.adt(T) == "alloc::string::String"

    def is_seq(self, T):
        return self.kind(T) in ("array", "slice") or self.adt(T) in (
            "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")

    def seq_elem(self, T):
        if self.kind(T) in ("array", "slice"):
            return self.elem(T)
        return self.targs(T)[0]

    def ty_by_name(self, n):
        for a in self.crate["adts"]:
            if a["path"] == n:
                return self.canon(a["ty"])
        raise Unsupported("anchor type %s is missing" % n)

    def variant_index(self, T, name):
        for i, v in enumerate(self.variants(T)):
            if v["name"] == name:
                return i
        raise Unsupported("type %s has no variant %s" % (self.tname(T), name))

    def field_index(self, T, name, v=0):
        for i, f in enumerate(self.variants(T)[v]["fields"]):
            if f[0] == name:
                return i
        raise Unsupported("type %s has no field %s" % (self.tname(T), name))

    def mk(self, T, vname, fields=()):
        return ("adt", T, self.variant_index(T, vname), tuple(fields))

    # ---------------------------------------------------------------- terms
    def ty_of(self, v):
        k = v[0]
        if k in ("i", "f"):
            return v[2]
        if k == "sym":
            return v[3]
        if k in ("adt", "clo", "fn"):
            return v[1]
        return None

    def only_value(self, T):
        """the one value of an enum all of whose other variants hold something impossible, or None"""
        if isinstance(T, str) or self.kind(T) != "adt":
            return None
        vs = self.variants(T)

        def impossible(X):
            X = self.canon(X)
            return not isinstance(X, str) and (self.kind(X) == "never" or self.kind(X) == "adt" and not self.variants(X))
        live = [i for i, v in enumerate(vs) if not any(impossible(f[1]) for f in v["fields"])]
        if len(vs) > 1 and len(live) == 1 and not vs[live[0]]["fields"]:
            return ("adt", T, live[0], ())
        return None

    def itv(self, st, v):
        """interval of an integer term"""
        v = st.res(v)
        if v[0] == "i":
            return (v[1], v[1])
        if v[0] != "sym":
            raise Unsupported("interval of %s" % (v[0],))
        lo, hi = PRIMS.get(v[3], (-INF, INF))
        op, a = v[1], v[2]
        if op in ("add", "sub", "mul", "neg", "cast", "div", "rem", "bitand"):
            xs = [self.itv(st, x) for x in a]
            r = None
            if op == "add":
                r = (xs[0][0] + xs[1][0], xs[0][1] + xs[1][1])
            elif op == "sub":
                r = (xs[0][0] - xs[1][1], xs[0][1] - xs[1][0])
            elif op == "neg":
                r = (-xs[0][1], -xs[0][0])
            elif op == "cast":
                r = xs[0]
            elif op == "mul":
                ps = [p * q if not (p in (INF, -INF) or q in (INF, -INF)) else None for p in xs[0] for q in xs[1]]
                r = (min(ps), max(ps)) if None not in ps else None
            elif op == "div" and xs[0][0] >= 0 and xs[1][0] >= 0:
                r = (0, xs[0][1])
            elif op == "rem" and xs[0][0] >= 0 and xs[1][0] >= 0:
                r = (0, min(xs[0][1], xs[1][1] - 1 if xs[1][1] > 0 else 0))
            elif op == "bitand" and all(x[0] >= 0 for x in xs):
                r = (0, min(x[1] for x in xs))
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        elif op == "bool2int":
            lo, hi = 0, 1
        elif op == "strlen":
            lo, hi = 0, (1 << 56) - 1      # no text is larger than memory
        r = st.rng.get(v)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return (lo, hi)

    def as_bool(self, st, t):
        """known truth value of a bool term, or None"""
        t = st.res(t)
        if t[0] == "i":
            return bool(t[1])
        op, a = t[1], t[2]
        if op == "not":
            r = self.as_bool(st, a[0])
            return None if r is None else not r
        if op == "lt":
            (l0, h0), (l1, h1) = self.itv(st, a[0]), self.itv(st, a[1])
            if h0 < l1:
                return True
            if l0 >= h1:
                return False
            if self.as_known(st, sym("eq", self.eqargs(a[0], a[1]), "bool")):
                return False
            if self.as_known(st, sym("lt", (a[1], a[0]), "bool")):
                return False
        if op == "eq":
            x, y = st.res(a[0]), st.res(a[1])
            if x == y:
                return True
            (l0, h0), (l1, h1) = self.itv(st, x), self.itv(st, y)
            if h0 < l1 or h1 < l0:
                return False
            if l0 == h0 == l1 == h1:
                return True
            for p, q in ((x, y), (y, x)):
                if q[0] == "i" and q[1] in st.ne.get(p, ()):
                    return False
            if self.as_known(st, sym("lt", (x, y), "bool")) or self.as_known(st, sym("lt", (y, x), "bool")):
                return False
        if op in ("and", "or"):
            x, y = self.as_bool(st, a[0]), self.as_bool(st, a[1])
            if op == "and":
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        return None

    def as_known(self, st, t):
        v = st.res(t)
        return bool(v[1]) if v[0] == "i" else None

    def eqargs(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def split_bool(self, t):
        raise NeedSplit([[("true", t)], [("false", t)]])

    def truth(self, st, t):
        r = self.as_bool(st, t)
        if r is None:
            self.split_bool(st.res(t))
        return r

    def assume(self, st, fact):
        """add a fact to st; False if it contradicts what is known"""
        k = fact[0]
        if k == "bind":
            _, s, v = fact
            cur = st.res(s)
            if cur[0] != "sym":
                if cur[0] == "i" and v[0] == "i":
                    return cur[1] == v[1]
                if cur[0] == "adt" and v[0] == "adt":
                    return cur[2] == v[2]
                return cur == v
            if v[0] == "i":
                lo, hi = self.itv(st, cur)
                if not (lo <= v[1] <= hi) or v[1] in st.ne.get(cur, ()):
                    return False
            st.bind[cur] = v
            st.facts += (fact,)
            if v[0] == "i":
                if not self.invert(st, cur, v[1], True):
                    return False
            if self.inv_hook is not None:
                return self.inv_hook(st, ("bind", cur, v))
            return True
        if k == "rng":
            _, s, lo, hi = fact
            cur = st.res(s)
            l0, h0 = self.itv(st, cur)
            lo, hi = max(lo, l0), min(hi, h0)
            if lo > hi:
                return False
            if cur[0] == "sym":
                ne = st.ne.get(cur, ())
                while lo in ne and lo <= hi:
                    lo += 1
                while hi in ne and lo <= hi:
                    hi -= 1
                if lo > hi:
                    return False
                if lo == hi:
                    st.bind[cur] = ("i", lo, cur[3])
                    if not self.invert(st, cur, lo, True):
                        return False
                else:
                    st.rng[cur] = (lo, hi)
                st.facts += (fact,)
                if cur[1] == "cast":
                    return self.assume(st, ("rng", cur[2][0], lo, hi))
            return True
        if k == "ne":
            _, s, n = fact
            cur = st.res(s)
            if cur[0] == "i":
                return cur[1] != n
            st.ne[cur] = frozenset(st.ne.get(cur, ())) | {n}
            st.facts += (fact,)
            if not self.invert(st, cur, n, False):
                return False
            lo, hi = self.itv(st, cur)
            if n == lo or n == hi:
                return self.assume(st, ("rng", cur, lo, hi))
            return True
        if k in ("true", "false"):
            t = st.res(fact[1])
            want = k == "true"
            known = self.as_bool(st, t)
            if known is not None:
                return known == want
            st.facts += ((k, t),)
            st.bind[t] = ("i", int(want), "bool")
            op, a = t[1], t[2]
            if op == "not":
                return self.assume(st, ("false" if want else "true", a[0]))
            if op == "and" and want or op == "or" and not want:
                return self.assume(st, (k, a[0])) and self.assume(st, (k, a[1]))
            if op == "lt":
                (l0, h0), (l1, h1) = self.itv(st, a[0]), self.itv(st, a[1])
                if want:
                    return self.assume(st, ("rng", a[0], l0, min(h0, h1 - 1))) and \
                        self.assume(st, ("rng", a[1], max(l1, l0 + 1), h1))
                return self.assume(st, ("rng", a[0], max(l0, l1), h0)) and \
                    self.assume(st, ("rng", a[1], l1, min(h0, h1)))
            if op == "eq":
                x, y = st.res(a[0]), st.res(a[1])
                for p, q in ((x, y), (y, x)):
                    if q[0] == "i" and p[0] == "sym":
                        return self.assume(st, ("bind", p, q) if want else ("ne", p, q[1]))
                if want:
                    (l0, h0), (l1, h1) = self.itv(st, x), self.itv(st, y)
                    return self.assume(st, ("rng", x, l1, h1)) and self.assume(st, ("rng", y, l0, h0))
            return True
        raise Unsupported("fact %s" % (k,))

    def invert(self, st, t, n, equal):
        """what t = n (or t != n) says about the only unknown t is made of"""
        op, a = t[1], t[2]
        if op not in ("cast", "neg", "add", "sub", "mul", "gcd"):
            return True

        def fact(x, k):
            x = st.res(x)
            if x[0] == "i":
                return (x[1] == k) == equal
            return self.assume(st, ("bind", x, ("i", k, x[3])) if equal else ("ne", x, k))
        if op == "cast":
            return fact(a[0], n)
        if op == "neg":
            return fact(a[0], -n)
        if op == "gcd":
            return n != 0 or not equal or fact(a[0], 0) and fact(a[1], 0)
        x, y = st.res(a[0]), st.res(a[1])
        if x[0] != "i" and y[0] != "i":
            return True
        if op == "add":
            return fact(x, n - y[1]) if y[0] == "i" else fact(y, n - x[1])
        if op == "sub":
            return fact(x, n + y[1]) if y[0] == "i" else fact(y, x[1] - n)
        k, z = (y[1], x) if y[0] == "i" else (x[1], y)
        if k == 0:
            return (n == 0) == equal
        if n % k:
            return not equal
        return fact(z, n // k)

    def fork(self, st, alts):
        out = []
        for fs in alts:
            s = st.copy()
            if all(self.assume(s, f) for f in fs):
                out.append(s)
        self.stats["splits"] += 1
        return out

    # comparison terms
    def c_lt(self, a, b):
        return sym("lt", (a, b), "bool")

    def c_not(self, t):
        if t[0] == "i":
            return ("i", 1 - t[1], "bool")
        if t[0] == "sym" and t[1] == "not":
            return t[2][0]
        return sym("not", (t,), "bool")

    def simp_bool(self, st, t):
        r = self.as_bool(st, t)
        return t if r is None else (TRUE if r else FALSE)

    def int_cmp(self, st, op, a, b):
        a, b = st.res(a), st.res(b)
        if op == "Lt":
            t = self.c_lt(a, b)
        elif op == "Gt":
            t = self.c_lt(b, a)
        elif op == "Le":
            t = self.c_not(self.c_lt(b, a))
        elif op == "Ge":
            t = self.c_not(self.c_lt(a, b))
        elif op == "Eq":
            t = sym("eq", self.eqargs(a, b), "bool")
        elif op == "Ne":
            t = self.c_not(sym("eq", self.eqargs(a, b), "bool"))
        return self.simp_bool(st, t)

    def is_floaty(self, st, v):
        v = st.res(v)
        return v[0] == "f" or v[0] == "sym" and v[3] in ("f64", "f32")

    def arith(self, op, a, b, T):
        """exact integer term"""
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if op == "add":
                return ("i", x + y, T)
            if op == "sub":
                return ("i", x - y, T)
            if op == "mul":
                return ("i", x * y, T)
            if op in ("div", "rem") and y != 0:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return ("i", q if op == "div" else x - q * y, T)
            if op == "bitand":
                return ("i", x & y, T)
            if op == "bitor":
                return ("i", x | y, T)
            if op == "bitxor":
                return ("i", x ^ y, T)
        if op == "add":
            if a[0] == "i" and a[1] == 0:
                return b
            if b[0] == "i" and b[1] == 0:
                return a
        if op == "sub" and b[0] == "i" and b[1] == 0:
            return a
        if op == "sub" and b[0] == "sym" and b[1] == "mul":
            # what is left of a division, as written out
            for q, y in (b[2], b[2][::-1]):
                if q[0] == "sym" and q[1] == "div" and q[2] == (a, y):
                    return sym("rem", (a, y), T)
        if op == "mul":
            if a[0] == "i" and a[1] == 1:
                return b
            if b[0] == "i" and b[1] == 1:
                return a
            if a[0] == "i" and a[1] == 0 or b[0] == "i" and b[1] == 0:
                return ("i", 0, T)
        if op == "div" and b[0] == "i" and b[1] == 1:
            return a
        return sym(op, (a, b), T)

    def wrap(self, n, T):
        lo, hi = PRIMS[T]
        return (n - lo) % (hi - lo + 1) + lo

    def fits(self, st, v, T):
        lo, hi = self.itv(st, v)
        l, h = PRIMS[T]
        return l <= lo and hi <= h

    def int_op(self, st, op, a, b, T, checked):
        """value (and overflow flag when checked) of a op b in type T"""
        a, b = st.res(a), st.res(b)
        e = self.arith(op, a, b, T)
        if e == a or e == b or self.fits_exact(st, e, T):
            return (e, FALSE) if checked else e
        if e[0] == "i":
            w = ("i", self.wrap(e[1], T), T)
            return (w, TRUE) if checked else w
        if not checked:
            # the plain operators of MIR wrap around
            return sym("w" + op, (a, b), T)
        if op == "sub" and PRIMS[T][0] == 0:
            flag = self.simp_bool(st, self.c_lt(a, b))
        else:
            flag = self.simp_bool(st, sym("ovf", (e,), "bool"))
        return e, flag

    def fits_exact(self, st, e, T):
        if e[0] == "i":
            l, h = PRIMS[T]
            return l <= e[1] <= h
        if e[0] == "sym" and e[1] in ("add", "sub", "mul", "neg", "div", "rem"):
            # interval of the exact result, without its type bound
            op, a = e[1], e[2]
            xs = [self.itv(st, x) for x in a]
            l, h = PRIMS[T]
            if op == "add":
                r = (xs[0][0] + xs[1][0], xs[0][1] + xs[1][1])
            elif op == "sub":
                r = (xs[0][0] - xs[1][1], xs[0][1] - xs[1][0])
                if l == 0 and (self.as_known(st, self.c_lt(a[0], a[1])) is False or
                               self.as_known(st, self.c_lt(a[1], a[0]))):
                    return True
            elif op == "mul":
                ps = [p * q for p in xs[0] for q in xs[1]]
                r = (min(ps), max(ps))
                for q, y in (a, a[::-1]):
                    if q[0] == "sym" and q[1] == "div" and q[2][1] == y and self.fits(st, q[2][0], T):
                        return True
            elif op == "neg":
                r = (-xs[0][1], -xs[0][0])
            else:
                return not (l < 0 and xs[0][0] == l and xs[1][0] <= -1 <= xs[1][1])
            return l <= r[0] and r[1] <= h
        return self.fits(st, e, T)

    def cast_int(self, st, v, T):
        v = st.res(v)
        if v[0] == "i":
            return ("i", self.wrap(v[1], T), T)
        if v[0] == "sym" and v[3] == T:
            return v
        if v[3] == "bool":
            return ("i", int(self.truth(st, v)), T)
        if self.fits(st, v, T):
            return sym("cast", (v,), T) if not (v[1] == "cast" and self.ty_of(v[2][0]) == T) else v[2][0]
        # it may wrap around: partition on whether it does
        lo, hi = self.itv(st, v)
        l, h = PRIMS[T]
        alts = [[("rng", v, max(a, lo), min(b, hi))] for a, b in ((l, h), (h + 1, hi), (lo, l - 1)) if max(a, lo) <= min(b, hi)]
        if len(alts) > 1:
            raise NeedSplit(alts)
        width = h - l + 1
        if lo > h and hi <= h + width:
            return sym("sub", (v, ("i", width, "int")), T)
        if hi < l and lo >= l - width:
            return sym("add", (v, ("i", width, "int")), T)
        return sym("wcast", (v,), T)

    # ---------------------------------------------------------------- memory
    def new_cell(self, st, v):
        c = next(_cell)
        st.cells[c] = v
        return c

    def ref(self, st, v):
        return ("ptr", self.new_cell(st, v), ())

    def expand(self, st, v):
        """one level of structure of a symbolic struct"""
        v = st.res(v)
        if v[0] != "sym":
            return v
        T = v[3]
        k = self.kind(T)
        if k == "tuple":
            n = len(self.tinfo(T)["elems"])
            return ("tup", tuple(sym("fld", (v, 0, i), self.fty(T, 0, i)) for i in range(n)))
        if k == "adt" and len(self.variants(T)) == 1 and not self.is_seq(T) and not self.is_text(T):
            return ("adt", T, 0, tuple(self.norm_fld(v, 0, i, T) for i in range(len(self.variants(T)[0]["fields"]))))
        return v

    def norm_fld(self, v, var, i, T):
        return sym("fld", (v, var, i), self.fty(T, var, i))

    def get_field(self, st, v, var, i):
        v = st.res(v)
        if v[0] == "adt":
            if var is not None and v[2] != var:
                raise Unsupported("field of the wrong variant of %s" % self.tname(v[1]))
            return v[3][i]
        if v[0] == "tup":
            return v[1][i]
        if v[0] == "clo":
            return v[2][i]
        if v[0] == "box":
            return v
        if v[0] == "sym":
            T = v[3]
            if self.kind(T) == "tuple":
                return sym("fld", (v, 0, i), self.fty(T, 0, i))
            if self.kind(T) == "adt":
                if len(self.variants(T)) == 1:
                    return self.norm_fld(v, 0, i, T)
                self.split_enum(st, v)
        raise Unsupported("field %s of a %s value%s" % (i, v[0], " of type " + self.tname(v[3]) if v[0] == "sym" else ""))

    def split_enum(self, st, v):
        T = v[3]
        alts = []
        for n, var in enumerate(self.variants(T)):
            if any(self.uninhabited(f[1]) for f in var["fields"]):
                continue
            alts.append([("bind", v, ("adt", T, n, tuple(self.norm_fld(v, n, i, T) for i in range(len(var["fields"])))))])
        raise NeedSplit(alts)

    def uninhabited(self, t):
        t = self.tinfo(t)
        return t["k"] == "never" or t["k"] == "adt" and t["variants"] == [] and t.get("adtkind") == "Enum"

    def content(self, st, v):
        """elements of a sequence value"""
        v = st.res(v)
        if v[0] in ("arr", "iter"):
            return v[1]
        if v[0] == "sym":
            hook = getattr(self, "seq_hook", None)
            r = hook(self, st, v) if hook else None
            if r is not None:
                return r
            raise Unsupported("contents of an unknown sequence %s" % self.show(v))
        if v[0] == "s" and all(isinstance(p, str) for p in v[1]):
            return tuple(("i", b, "u8") for b in "".join(v[1]).encode())
        raise Unsupported("contents of a %s value" % v[0])

    def text(self, st, v):
        v = st.res(v)
        if v[0] == "s":
            return v[1]
        if v[0] == "sym":
            return (("d", v, ""),)
        raise Unsupported("text of a %s value" % v[0])

    def load_path(self, st, v, path):
        for n, p in enumerate(path):
            v = st.res(v)
            if p[0] == "f":
                v = self.get_field(st, v, p[1], p[2])
            elif p[0] == "e":
                xs = self.content(st, v)
                if not 0 <= p[1] < len(xs):
                    raise Unsupported("element %d of %d" % (p[1], len(xs)))
                v = xs[p[1]]
            elif p[0] == "sub":
                if v[0] == "s":
                    raise Unsupported("part of a text")
                v = ("arr", self.content(st, v)[p[1]:p[2]])
            else:
                raise Unsupported("path %s" % (p,))
        return st.res(v)

    def load(self, st, ptr):
        ptr = st.res(ptr)
        if ptr[0] == "box":
            return st.res(st.cells[ptr[1]])
        if ptr[0] == "ptr":
            if ptr[1] not in st.cells:
                raise Unsupported("dangling cell")
            return self.load_path(st, st.cells[ptr[1]], ptr[2])
        if ptr[0] == "sym":
            t = self.tinfo(ptr[3])
            if t["k"] == "ref":
                return st.res(sym("deref", (ptr,), self.canon(t["elem"])))
        raise Unsupported("dereference of a %s value" % ptr[0])

    def store_path(self, st, v, path, new):
        if not path:
            return new
        v = st.res(v)
        p = path[0]
        if p[0] == "f":
            v = self.expand(st, v)
            if v[0] == "adt":
                if p[1] is not None and v[2] != p[1]:
                    raise Unsupported("store into the wrong variant")
                fs = list(v[3])
                fs[p[2]] = self.store_path(st, fs[p[2]], path[1:], new)
                return ("adt", v[1], v[2], tuple(fs))
            if v[0] == "tup":
                fs = list(v[1])
                fs[p[2]] = self.store_path(st, fs[p[2]], path[1:], new)
                return ("tup", tuple(fs))
            if v[0] == "clo":
                fs = list(v[2])
                fs[p[2]] = self.store_path(st, fs[p[2]], path[1:], new)
                return ("clo", v[1], tuple(fs))
            raise Unsupported("store into a field of a %s value" % v[0])
        if p[0] == "e":
            xs = list(self.content(st, v))
            if not 0 <= p[1] < len(xs):
                raise Unsupported("store outside")
            xs[p[1]] = self.store_path(st, xs[p[1]], path[1:], new)
            return (v[0] if v[0] in ("arr", "iter") else "arr", tuple(xs))
        if p[0] == "sub":
            xs = self.content(st, v)
            part = self.store_path(st, ("arr", xs[p[1]:p[2]]), path[1:], new)
            return ("arr", xs[:p[1]] + self.content(st, part) + xs[p[2]:])
        raise Unsupported("store path %s" % (p,))

    def store(self, st, ptr, new):
        ptr = st.res(ptr)
        if ptr[0] == "box":
            st.cells[ptr[1]] = new
            return
        if ptr[0] != "ptr":
            raise Unsupported("store through a %s value" % ptr[0])
        st.cells[ptr[1]] = self.store_path(st, st.cells.get(ptr[1]), ptr[2], new)

    def sub_ptr(self, ptr, p):
        path = ptr[2]
        if path and path[-1][0] == "sub":
            lo, hi = path[-1][1], path[-1][2]
            if p[0] == "e":
                return ("ptr", ptr[1], path[:-1] + (("e", lo + p[1]),))
            if p[0] == "sub":
                return ("ptr", ptr[1], path[:-1] + (("sub", lo + p[1], lo + p[2]),))
        return ("ptr", ptr[1], path + (p,))

    # ---------------------------------------------------------------- constants
    def const(self, st, c):
        T = self.canon(c["ty"])
        k = c["kind"]
        if k == "ZeroSized":
            return self.zst(T)
        if isinstance(k, dict) and "Allocated" in k:
            a = k["Allocated"]
            return self.decode(st, T, a, 0)
        raise Unsupported("constant %s of type %s" % (list(k) if isinstance(k, dict) else k, self.tname(T)))

    def zst(self, T):
        t = self.tinfo(T) if not isinstance(T, str) else {"k": "prim"}
        k = t["k"]
        if k == "fndef":
            return ("fn", T)
        if k == "closure":
            return ("clo", T, ())
        if k == "tuple":
            return ("tup", tuple(self.zst(self.canon(e)) for e in t["elems"]))
        if k == "adt":
            if self.is_seq(T):
                return ("arr", ())
            return ("adt", T, 0, tuple(self.zst(self.canon(f[1])) for f in t["variants"][0]["fields"]))
        if k == "array":
            return ("arr", ())
        raise Unsupported("zero-sized constant of type %s" % self.tname(T))

    def bytes_at(self, a, off, n):
        bs = a["bytes"][off:off + n]
        if any(b is None for b in bs):
            raise Unsupported("uninitialised constant")
        return bytes(bs)

    def size(self, T):
        if isinstance(T, str):
            return 1 if T == "bool" else 4 if T == "char" else 8 if T in ("isize", "usize") else int(T[1:]) // 8
        l = self.srv.q(q="layout", i=self.idx(T))
        return l["size"]["num_bits"] // 8

    def idx(self, T):
        return self.prims[T] if isinstance(T, str) else T

    def decode(self, st, T, a, off):
        if isinstance(T, str):
            n = self.size(T)
            b = self.bytes_at(a, off, n)
            if T in ("f64", "f32"):
                return ("f", int.from_bytes(b, "little"), T)
            v = int.from_bytes(b, "little")
            if T[0] == "i":
                v = self.wrap(v, T)
            return ("i", v, T)
        t = self.tinfo(T)
        k = t["k"]
        if k in ("ref", "ptr"):
            pr = [p for p in a["provenance"]["ptrs"] if p[0] == off]
            if not pr:
                raise Unsupported("constant pointer without provenance")
            base = int.from_bytes(self.bytes_at(a, off, 8), "little")
            E = self.canon(t["elem"])
            g = self.srv.q(q="alloc", id=pr[0][1])
            if "fn" in g:
                raise Unsupported("constant function pointer")
            if "static" in g:
                key = "static:" + g["static"]
                if key not in st.cells:
                    st.cells[key] = self.decode(st, E, g["mem"], base) if g.get("mem") else sym("static", (g["static"],), E)
                return ("ptr", key, ())
            if "mem" not in g:
                raise Unsupported("constant pointer")
            m = g["mem"]
            ek = self.kind(E)
            if ek == "str":
                n = int.from_bytes(self.bytes_at(a, off + 8, 8), "little")
                return self.ref(st, S(self.bytes_at(m, base, n).decode()))
            if ek == "slice":
                n = int.from_bytes(self.bytes_at(a, off + 8, 8), "little")
                X = self.elem(E)
                w = self.size(X)
                return self.ref(st, ("arr", tuple(self.decode(st, X, m, base + j * w) for j in range(n))))
            if ek == "dyn":
                raise Unsupported("constant trait object")
            return self.ref(st, self.decode(st, E, m, base))
        if k == "array":
            X = self.canon(t["elem"])
            w = self.size(X)
            return ("arr", tuple(self.decode(st, X, a, off + j * w) for j in range(t["len"])))
        if k == "tuple":
            l = self.srv.q(q="layout", i=T)
            offs = self.offsets(l["fields"])
            return ("tup", tuple(self.decode(st, self.canon(e), a, off + o) for e, o in zip(t["elems"], offs)))
        if k == "adt":
            if self.is_seq(T) :
                # an empty Vec constant
                return ("arr", ())
            if self.adt(T) == "alloc::string::String":
                return S()
            return self.decode_adt(st, T, t, a, off)
        if k in ("fndef", "closure"):
            return self.zst(T)
        if k == "fnptr":
            pr = [p for p in a["provenance"]["ptrs"] if p[0] == off]
            g = self.srv.q(q="alloc", id=pr[0][1]) if pr else {}
            if "fn" in g:
                F = self.canon(g["fn"]["args"][0] if g["fn"]["shim"] == "ClosureOnce" else g["fn"]["ty"])
                return self.zst(F)
        raise Unsupported("constant of type %s" % t["name"])

    def offsets(self, f):
        if f == "Primitive":
            return []
        if "Arbitrary" in f:
            return [o["num_bits"] // 8 for o in f["Arbitrary"]["offsets"]]
        if "Array" in f:
            s = f["Array"]["stride"]["num_bits"] // 8
            return [s * j for j in range(f["Array"]["count"])]
        raise Unsupported("layout %s" % f)

    def decode_adt(self, st, T, t, a, off):
        l = self.srv.q(q="layout", i=T)
        vs = l["variants"]
        if t.get("adtkind") == "Struct" or len(t["variants"]) == 1:
            offs = self.offsets(l["fields"])
            fs = t["variants"][0]["fields"]
            return ("adt", T, 0, tuple(self.decode(st, self.canon(f[1]), a, off + o) for f, o in zip(fs, offs)))
        if "Multiple" not in vs:
            idx = vs["Single"]["index"]
            return ("adt", T, idx, tuple(self.decode(st, self.canon(f[1]), a, off + o)
                                         for f, o in zip(t["variants"][idx]["fields"], self.offsets(l["fields"]))))
        m = vs["Multiple"]
        tf = self.offsets(l["fields"])[m["tag_field"]]
        tag = m["tag"]
        width = self.tag_width(tag)
        enc = m["tag_encoding"]
        pr = [p for p in a["provenance"]["ptrs"] if p[0] == off + tf]
        raw = None if pr else int.from_bytes(self.bytes_at(a, off + tf, width), "little")
        if enc == "Direct":
            idx = None
            for j, v in enumerate(t["variants"]):
                if int(v["discr"]) % (1 << (8 * width)) == raw:
                    idx = j
            if idx is None:
                raise Unsupported("tag")
        else:
            n = enc["Niche"]
            lo, hi = n["niche_variants"]["start"], n["niche_variants"]["end"]
            idx = n["untagged_variant"]
            if raw is not None:
                rel = (raw - int(n["niche_start"])) % (1 << (8 * width))
                if rel <= hi - lo:
                    idx = lo + rel
        offs = [o["num_bits"] // 8 for o in m["variants"][idx]["offsets"]]
        return ("adt", T, idx, tuple(self.decode(st, self.canon(f[1]), a, off + o)
                                     for f, o in zip(t["variants"][idx]["fields"], offs)))

    def tag_width(self, tag):
        s = repr(tag)
        m = re.search(r"I(8|16|32|64|128)", s)
        if m:
            return int(m.group(1)) // 8
        if "Pointer" in s:
            return 8
        raise Unsupported("tag layout %s" % s)

    # ---------------------------------------------------------------- bodies
    def body(self, info):
        i = info["id"]
        b = self.bodies.get(i)
        if b is None:
            b = self.srv.q(q="body", id=i)
            if not b:
                raise Unsupported("no MIR for %s" % info["path"])
            self.bodies[i] = b
        return b

    def loop_heads(self, info):
        """blocks of a body that are reached again from what follows them"""
        b = self.body(info)
        n = len(b["blocks"])
        succ = [self.successors(b["blocks"][i]["terminator"]["kind"]) for i in range(n)]
        heads, state = set(), [0] * n
        work = [(0, iter(succ[0]))] if n else []
        state[0] = 1
        while work:
            x, it = work[-1]
            for y in it:
                if state[y] == 1:
                    heads.add(y)
                elif state[y] == 0:
                    state[y] = 1
                    work.append((y, iter(succ[y])))
                    break
            else:
                state[x] = 2
                work.pop()
        return heads

    def successors(self, t):
        if isinstance(t, str):
            return []
        k = next(iter(t))
        x = t[k]
        if k == "SwitchInt":
            return [y for _, y in x["targets"]["branches"]] + [x["targets"]["otherwise"]]
        return [x[f] for f in ("target", "real_target") if isinstance(x.get(f), int)]

    def ret_ty(self, info):
        return self.canon(self.body(info)["locals"][0]["ty"])

    def arg_tys(self, info):
        b = self.body(info)
        return [self.canon(l["ty"]) for l in b["locals"][1:1 + b["arg_count"]]]

    def resolve_fn(self, T, ckind=None):
        kw = {"q": "resolve", "i": self.idx(T)}
        if ckind:
            kw["ckind"] = ckind
        r = self.srv.q(**kw)
        if "err" in r:
            raise Unsupported("cannot resolve %s: %s" % (self.tname(T), r["err"]))
        return r

    def trait_method(self, trait, method, *tys):
        r = self.srv.q(q="trait_method", trait=trait, method=method, args=[self.idx(t) for t in tys])
        if "err" in r:
            raise Unsupported("cannot resolve %s::%s for %s: %s" % (trait, method, [self.tname(t) for t in tys], r["err"]))
        return r

    # ---------------------------------------------------------------- calls
    def call(self, st, info, args):
        """-> list of (state, ('ret', v) | ('panic', kind, message, where) | ('cut',))"""
        self.stats["calls"] += 1
        for pred, handler in self.cuts:
            if pred(info):
                r = self.with_splits(st, lambda s: handler(self, s, info, args))
                if r is not None:
                    return r
        from . import models
        if info["local"] and info.get("method") == "clone" and info.get("trait") == "core::clone::Clone" and \
                models.clone_identity(self, self.canon(info["self_ty"])):
            # a derived Clone of plain data
            return [(st, ("ret", self.load(st, st.res(args[0]))))]
        if not info["local"]:
            m = models.find(self, info)
            if m is not None:
                r = self.with_splits(st, lambda s: m(self, s, info, args))
                if r is not None:
                    return r
                # not one of the cases modelled: the body
        if not info.get("has_body"):
            if info.get("intrinsic"):
                from . import models
                return self.with_splits(st, lambda s: models.intrinsic(self, s, info, args))
            raise Unsupported("no model for %s" % info["path"])
        if info["kind"] == "Shim" or info["shim"] not in ("Item",):
            from . import models
            r = models.shim(self, st, info, args)
            if r is not None:
                return r
        if info["id"] in self.stack:
            if info["local"] and info.get("defkind") in ("Fn", "AssocFn"):
                if info["id"] not in self.unfold:
                    raise Recursion(info)
                if self.prune is not None and self.prune(st):
                    return []
                if self.stack.count(info["id"]) >= min(self.depth_limit, self.loop_limit):
                    self.truncated += 1
                    return [(st, ("cut", info["path"]))]
                return self.pushed(st, info, args)
            if self.stack.count(info["id"]) > 6:
                raise Unsupported("recursion of %s" % info["path"])
        if len(self.stack) > self.max_depth:
            raise Unsupported("call depth at %s" % info["path"])
        if info["local"]:
            self.stats["fns"].add(info["path"])
        return self.pushed(st, info, args)

    def enter(self, st, info, args):
        """analyse the body of info itself, whatever contract its callers use"""
        if not info.get("has_body"):
            raise Unsupported("no MIR for %s" % info["path"])
        if info["local"]:
            self.stats["fns"].add(info["path"])
        return self.pushed(st, info, args)

    def pushed(self, st, info, args):
        top = not self.stack
        self.infos[info["id"]] = info
        self.stack.append(info["id"])
        try:
            outs = self.run(st, info, args)
        except Unsupported as e:
            if not hasattr(e, "stack"):
                e.stack = tuple(self.stack)
            if top and self.watch:
                self.watch(info, args, None, e)
            raise
        finally:
            self.stack.pop()
        if top and self.watch:
            outs = list(outs)
            self.watch(info, args, outs, None)
        return outs

    def with_splits(self, st, f):
        """run a model; if it has to know more, partition and run it again"""
        work, out = [st], []
        while work:
            s = work.pop()
            try:
                r = f(s.copy())
            except NeedSplit as ns:
                work.extend(reversed(self.fork(s, ns.alts)))
                continue
            if r is None:
                return None
            if isinstance(r, tuple) and r and r[0] == "state":
                r = [(r[1], ("ret", r[2]))]
            out.extend(r)
        return out

    def call_value(self, st, fv, args):
        """call a closure / fn item / reference to one with separate arguments"""
        fv = st.res(fv)
        if fv[0] == "ptr":
            tgt = self.load(st, fv)
            if tgt[0] in ("fn", "ptr"):
                return self.call_value(st, tgt, args)
            if tgt[0] == "clo":
                info = self.resolve_fn(tgt[1], self.tinfo(tgt[1])["ckind"].split("::")[-1].replace('"', ""))
                first = self.arg_tys(info)[0]
                return self.call(st, info, [fv if self.kind(first) == "ref" else tgt] + list(args))
        if fv[0] == "fn":
            return self.call(st, self.resolve_fn(fv[1]), list(args))
        if fv[0] == "clo":
            info = self.resolve_fn(fv[1], self.tinfo(fv[1])["ckind"].split("::")[-1])
            first = self.arg_tys(info)[0]
            if self.kind(first) == "ref":
                return self.call(st, info, [self.ref(st, fv)] + list(args))
            return self.call(st, info, [fv] + list(args))
        raise Unsupported("call of a %s value" % fv[0])

    def tuple_items(self, st, v):
        v = self.expand(st, v)
        if v[0] != "tup":
            raise Unsupported("call arguments of kind %s" % v[0])
        return list(v[1])

    def bind_outcomes(self, outs, f):
        """continue every returning outcome with f(state, value) -> outcomes"""
        res = []
        for s, o in outs:
            if o[0] == "ret":
                res.extend(f(s, o[1]))
            else:
                res.append((s, o))
        return res

    # ---------------------------------------------------------------- execution
    def run(self, st, info, args):
        b = self.body(info)
        if len(args) != b["arg_count"]:
            raise Unsupported("argument count of %s" % info["path"])
        base = next(_cell)
        # cells of this frame
        cells = {}
        for n in range(len(b["locals"])):
            cells[n] = ("l", base, n)
        st = st.copy()
        if b.get("spread_arg"):
            raise Unsupported("spread arguments in %s" % info["path"])
        for n, a in enumerate(args):
            st.cells[cells[n + 1]] = a
        fr = Frame(self, info, b, base)
        out = []
        work, parked = [(st, 0, 0, {})], {}
        while work or parked:
            if not work:
                # the paths waiting at the head of a loop, the earliest first
                k = min(parked, key=lambda k: (k[1], k[0]))
                work = [(s, k[0], -1, v) for s, v in self.join(parked.pop(k))]
            st, bb, i, visits = work.pop()
            r = fr.exec(st, bb, i, visits)
            for x in r:
                if x[0] == "park":
                    parked.setdefault((x[2], x[3][x[2]]), []).append((x[1], x[3]))
                elif x[0] == "out":
                    s, o = x[1], x[2]
                    self.stats["paths"] += 1
                    for c in cells.values():
                        s.cells.pop(c, None)
                    out.append((s, o))
                    fr.joining = self.join_above is not None and len(out) >= self.join_above
                else:
                    work.append(x[1:])
        return out

    def memory(self, st, put=None):
        """the memory of a state with its cells renamed in order, the expressions in its lists set apart;
        with others to put in their places: the cells"""
        seen, todo, key, elems, cells = {}, [], [], [], {}

        def name(v):
            if isinstance(v, tuple):
                if len(v) > 1 and v[0] == "ptr" and isinstance(v[1], int) and v[1] in st.cells:
                    if v[1] not in seen:
                        seen[v[1]] = len(seen)
                        todo.append(v[1])
                    return (("ptr", seen[v[1]]) if put is None else v[:2]) + tuple(name(x) for x in v[2:])
                if len(v) == 2 and v[0] == "arr" and self.same_number is not None and self.same_number(v[1]):
                    elems.extend(v[1])
                    return ("arr", len(v[1]) if put is None else tuple(put[len(elems) - len(v[1]):len(elems)]))
                return tuple(name(x) for x in v)
            return v
        for c in sorted(c for c in st.cells if isinstance(c, tuple) and c[0] == "l"):
            cells[c] = name(st.cells[c])
            key.append((c, cells[c]))
        while todo:
            c = todo.pop(0)
            cells[c] = name(st.cells[c])
            key.append(cells[c])
        return cells if put is not None else (tuple(key), elems)

    def join(self, states):
        """paths with the same memory at the same place are one path that knows what all of them know; an element
        of a list that is a number on one path and of the value of that number on the other does not tell them apart"""
        groups = {}
        for st, visits in states:
            key, elems = self.memory(st)
            groups.setdefault((key, len(elems), st.fin), []).append((st, visits, elems))
        out = []
        for g in groups.values():
            cache = {}
            while g:
                rest, st, visits, elems = [], g[0][0].copy(), dict(g[0][1]), list(g[0][2])
                for x in g[1:]:
                    o, v = x[0], x[1]
                    new = []
                    for p, q in zip(elems, x[2]):
                        if p == q or self.same_number([q], p, o, cache):
                            new.append(p)
                        elif self.same_number([p], q, st, cache):
                            new.append(q)
                        else:
                            break
                    if len(new) < len(elems):
                        rest.append(x)
                        continue
                    if new != elems:
                        elems, st.cells = new, self.memory(st, new)
                    cache.pop(id(st), None)
                    st.bind = {t: y for t, y in st.bind.items() if o.bind.get(t) == y}
                    st.rng = {t: (min(r[0], o.rng[t][0]), max(r[1], o.rng[t][1])) for t, r in st.rng.items() if t in o.rng}
                    st.ne = {t: y & o.ne[t] for t, y in st.ne.items() if t in o.ne}
                    st.facts = tuple(f for f in st.facts if f in o.facts)
                    st.trace = tuple(f for f in st.trace if f in o.trace)
                    for b, n in v.items():
                        visits[b] = max(n, visits.get(b, 0))
                out.append((st, visits))
                g = rest
        return out

    # ---------------------------------------------------------------- display
    def show(self, v, depth=0):
        if not isinstance(v, tuple) or not v:
            return str(v)
        k = v[0]
        if isinstance(k, tuple) or k not in KINDS and all(isinstance(p, (str, tuple)) for p in v):
            return self.show(("s", v))      # pieces of a text
        if k == "i":
            return str(v[1]) if v[2] != "bool" else ("true" if v[1] else "false")
        if k == "f":
            x = struct.unpack("<d" if v[2] == "f64" else "<f", v[1].to_bytes(8 if v[2] == "f64" else 4, "little"))[0]
            return repr(x)
        if k == "s":
            return "\"" + "".join(p if isinstance(p, str) else "{" + ",".join(self.show(q) for q in p[1:] if q != "") + "}" for p in v[1]) + "\""
        if k == "adt":
            if depth > 14:
                return "…"
            t = self.tinfo(v[1])
            name = t["adt"].split("::")[-1]
            vn = t["variants"][v[2]]["name"]
            if name != vn:
                name = vn
            if not v[3]:
                return name
            return name + "(" + ", ".join(self.show(x, depth + 1) for x in v[3]) + ")"
        if k == "tup" or k == "arr" or k == "iter":
            return ("(" if k == "tup" else "[") + ", ".join(self.show(x, depth + 1) for x in v[1]) + (")" if k == "tup" else "]")
        if k == "sym":
            op, a = v[1], v[2]
            if op == "fld":
                return "%s.%s" % (self.show(a[0], depth + 1), a[2] if self.kind(self.ty_of(a[0])) != "adt" else
                                  self.variants(self.ty_of(a[0]))[a[1]]["fields"][a[2]][0])
            if op == "in":
                return str(a[0])
            if op == "text":
                return "text(%s)" % ", ".join(self.show(x, depth + 1) for x in (a[0],) + a[1][1:])
            return "%s(%s)" % (op, ", ".join(self.show(x, depth + 1) for x in a))
        if k in ("fn", "clo"):
            return self.tname(v[1])
        return str(k)

    def show_facts(self, st, limit=8):
        out = []
        for f in st.facts:
            if f[0] == "bind":
                v = f[2]
                if v[0] == "adt":
                    out.append("%s is %s" % (self.show(f[1]), self.variants(v[1])[v[2]]["name"]))
                else:
                    out.append("%s = %s" % (self.show(f[1]), self.show(v)))
            elif f[0] in ("true", "false"):
                out.append(("" if f[0] == "true" else "not ") + self.show(f[1]))
            elif f[0] == "ne":
                out.append("%s != %s" % (self.show(f[1]), f[2]))
        if len(out) > limit:
            out = out[:limit] + ["…"]
        return "; ".join(out) or "always"


class Frame:
    def __init__(self, ip, info, body, base):
        self.ip, self.info, self.b, self.base = ip, info, body, base
        self.blocks = body["blocks"]
        self.ltys = [ip.canon(l["ty"]) for l in body["locals"]]
        self.joining = False

    def cell(self, n):
        return ("l", self.base, n)

    # places: -> (ptr, type)
    def place(self, st, p):
        ip = self.ip
        T = self.ltys[p["local"]]
        ptr = ("ptr", self.cell(p["local"]), ())
        var = None
        for e in p["projection"]:
            if e == "Deref":
                v = self.load(st, ptr)
                t = ip.tinfo(T)
                if t["k"] in ("ref", "ptr"):
                    T = ip.canon(t["elem"])
                else:  # Box
                    T = ip.targs(T)[0]
                if v[0] == "box":
                    ptr = ("ptr", v[1], ())
                elif v[0] == "ptr":
                    ptr = v
                elif v[0] == "sym":
                    key = ("d", v)
                    if key not in st.cells:
                        st.cells[key] = ip.load(st, v)
                    ptr = ("ptr", key, ())
                else:
                    raise Unsupported("dereference of a %s value in %s" % (v[0], self.info["path"]))
                var = None
                continue
            k = next(iter(e)) if isinstance(e, dict) else e
            x = e[k] if isinstance(e, dict) else None
            if k == "Field":
                FT = ip.canon(x[1])
                if ip.transparent(T):
                    pass
                elif not isinstance(T, str) and ip.adt(T) == "alloc::boxed::Box":
                    # the pointer inside a box
                    pass
                elif ip.adt(T) in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    pass
                else:
                    ptr = ip.sub_ptr(ptr, ("f", var, x[0]))
                T, var = FT, None
            elif k == "Downcast":
                var = x if isinstance(x, int) else int(x)
            elif k == "Index":
                n = st.res(self.load(st, ("ptr", self.cell(x), ())))
                if n[0] != "i":
                    raise Unsupported("element at an unknown index")
                ptr = ip.sub_ptr(ptr, ("e", n[1]))
                T = ip.seq_elem(T)
            elif k == "ConstantIndex":
                off, fe = x["offset"], x["from_end"]
                if fe:
                    off = len(ip.content(st, self.load(st, ptr))) - off
                ptr = ip.sub_ptr(ptr, ("e", off))
                T = ip.seq_elem(T)
            elif k == "Subslice":
                n = len(ip.content(st, self.load(st, ptr)))
                to = n - x["to"] if x["from_end"] else x["to"]
                ptr = ip.sub_ptr(ptr, ("sub", x["from"], to))
            elif k in ("OpaqueCast", "Subtype"):
                T = ip.canon(x)
            else:
                raise Unsupported("projection %s" % k)
        return ptr, T

    def load(self, st, ptr):
        if ptr[1] not in st.cells:
            raise Unsupported("read of an unset local in %s" % self.info["path"])
        return self.ip.load(st, ptr)

    def operand(self, st, o):
        k = next(iter(o))
        if k in ("Copy", "Move"):
            ptr, T = self.place(st, o[k])
            return self.load(st, ptr)
        if k == "Constant":
            return self.ip.const(st, o[k]["const_"])
        if k == "RuntimeChecks":
            return FALSE
        raise Unsupported("operand %s" % k)

    def operand_ty(self, st, o):
        k = next(iter(o))
        if k in ("Copy", "Move"):
            return self.place(st, o[k])[1]
        if k == "RuntimeChecks":
            return "bool"
        return self.ip.canon(o[k]["const_"]["ty"])

    def rvalue(self, st, r, DT):
        ip = self.ip
        k = next(iter(r)) if isinstance(r, dict) else r
        x = r[k] if isinstance(r, dict) else None
        if k == "Use":
            return self.operand(st, x[0] if isinstance(x, list) else x)
        if k == "CopyForDeref":
            ptr, T = self.place(st, x)
            return self.load(st, ptr)
        if k in ("Ref", "AddressOf", "Reborrow"):
            p = x[-1]
            ptr, T = self.place(st, p)
            return ptr
        if k == "Discriminant":
            ptr, T = self.place(st, x)
            if ptr[1] not in st.cells and not ptr[2]:
                # an enum of one possible value is never written
                v = ip.only_value(T)
                if v is not None:
                    return self.discr(st, v, T, DT)
            v = self.load(st, ptr)
            return self.discr(st, v, T, DT)
        if k == "Aggregate":
            return self.aggregate(st, x, DT)
        if k == "Repeat":
            v = self.operand(st, x[0])
            n = ip.tinfo(DT)["len"]
            return ("arr", (v,) * n)
        if k == "Len":
            ptr, T = self.place(st, x)
            return I(len(ip.content(st, self.load(st, ptr))), "usize")
        if k in ("BinaryOp", "CheckedBinaryOp"):
            T = self.operand_ty(st, x[1])
            a, b = self.operand(st, x[1]), self.operand(st, x[2])
            return self.binop(st, x[0], a, b, T, k == "CheckedBinaryOp", DT)
        if k == "UnaryOp":
            T = self.operand_ty(st, x[1])
            return self.unop(st, x[0], self.operand(st, x[1]), T, DT)
        if k == "Cast":
            T = self.operand_ty(st, x[1])
            return self.cast(st, x[0], self.operand(st, x[1]), T, ip.canon(x[2]))
        if k == "NullaryOp":
            return FALSE
        raise Unsupported("rvalue %s in %s" % (k, self.info["path"]))

    def discr(self, st, v, T, DT):
        ip = self.ip
        v = st.res(v)
        if v[0] == "adt":
            n = int(ip.variants(v[1])[v[2]]["discr"])
            if isinstance(DT, str) and DT in PRIMS:
                n = ip.wrap(n, DT)
            return ("i", n, DT)
        if v[0] == "sym":
            if ip.kind(v[3]) == "adt" and ip.variants(v[3]):
                if len(ip.variants(v[3])) == 1:
                    return I(0, DT)
                ip.split_enum(st, v)
        raise Unsupported("variant of a %s value in %s" % (v[0], self.info["path"]))

    def aggregate(self, st, x, DT):
        ip = self.ip
        kind, ops = x
        vals = tuple(self.operand(st, o) for o in ops)
        k = kind if isinstance(kind, str) else next(iter(kind))
        if k == "Tuple":
            return ("tup", vals)
        if k == "Array":
            return ("arr", vals)
        if k == "Adt":
            if ip.transparent(DT):
                return vals[0] if vals else ("uninit",)
            a = kind["Adt"]
            return ("adt", DT, a[1] if isinstance(a[1], int) else int(a[1]), vals)
        if k == "Closure":
            return ("clo", DT, vals)
        if k == "RawPtr":
            return vals[0]
        raise Unsupported("aggregate %s" % k)

    OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor",
           "BitXor": "bitxor", "AddUnchecked": "add", "SubUnchecked": "sub", "MulUnchecked": "mul"}

    def binop(self, st, op, a, b, T, checked, DT):
        ip = self.ip
        a, b = st.res(a), st.res(b)
        if T in ("f64", "f32"):
            if op in ("Add", "Sub", "Mul", "Div", "Rem"):
                return sym("f" + self.OPS[op], (a, b), T)
            if op == "Lt":
                return self.fb(st, sym("flt", (a, b), "bool"))
            if op == "Gt":
                return self.fb(st, sym("flt", (b, a), "bool"))
            if op == "Le":
                return self.fb(st, sym("fle", (a, b), "bool"))
            if op == "Ge":
                return self.fb(st, sym("fle", (b, a), "bool"))
            if op == "Eq":
                return self.fb(st, sym("feq", ip.eqargs(a, b), "bool"))
            if op == "Ne":
                return self.fb(st, ip.c_not(sym("feq", ip.eqargs(a, b), "bool")))
        if T == "bool":
            if op in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
                x, y = ip.as_bool(st, a), ip.as_bool(st, b)
                if op == "BitAnd":
                    if x is False or y is False:
                        return FALSE
                    if x:
                        return b
                    if y:
                        return a
                    return sym("and", (a, b), "bool")
                if op == "BitOr":
                    if x or y:
                        return TRUE
                    if x is False:
                        return b
                    if y is False:
                        return a
                    return sym("or", (a, b), "bool")
                if x is None:
                    ip.split_bool(a)
                if op in ("BitXor", "Ne"):
                    return ip.c_not(b) if x else b
                if op == "Eq":
                    return b if x else ip.c_not(b)
                if y is None:
                    ip.split_bool(b)
                return ("i", int({"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[op]), "bool")
        if T in PRIMS:
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return ip.int_cmp(st, op, a, b)
            if op == "Cmp":
                return models_cmp(ip, st, a, b, DT)
            if op in self.OPS:
                r = ip.int_op(st, self.OPS[op], a, b, T, checked)
                return ("tup", r) if checked else r
            if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
                if a[0] == "i" and b[0] == "i":
                    n = a[1] << b[1] if op.startswith("Shl") else a[1] >> b[1]
                    return ("i", ip.wrap(n, T), T)
                if checked:
                    raise Unsupported("checked shift")
                return sym(op[:3].lower(), (a, b), T)
        raise Unsupported("operator %s on %s in %s" % (op, ip.tname(T), self.info["path"]))

    def fb(self, st, t):
        return self.ip.simp_bool(st, t)

    def unop(self, st, op, a, T, DT):
        ip = self.ip
        a = st.res(a)
        if op == "Not":
            if T == "bool":
                r = ip.as_bool(st, a)
                return ("i", 1 - int(r), "bool") if r is not None else ip.c_not(a)
            if a[0] == "i":
                return ("i", ip.wrap(~a[1], T), T)
            return sym("bitnot", (a,), T)
        if op == "Neg":
            if T in ("f64", "f32"):
                return sym("fneg", (a,), T)
            if a[0] == "i":
                return ("i", ip.wrap(-a[1], T), T)
            e = sym("neg", (a,), T)
            if a[0] == "sym" and a[1] == "neg":
                return a[2][0]
            lo = PRIMS[T][0]
            if ip.itv(st, a)[0] > lo or lo in st.ne.get(a, ()):
                return e
            # -MIN wraps
            raise NeedSplit([[("ne", a, lo)], [("bind", a, ("i", lo, T))]])
        if op == "PtrMetadata":
            v = self.load(st, a) if a[0] == "ptr" else ip.load(st, a)
            if v[0] == "s":
                raise Unsupported("length of a text")
            return I(len(ip.content(st, v)), "usize")
        raise Unsupported("operator %s in %s" % (op, self.info["path"]))

    def cast(self, st, kind, v, T, DT):
        ip = self.ip
        k = kind if isinstance(kind, str) else next(iter(kind))
        v = st.res(v)
        if k == "IntToInt":
            if v[0] == "adt":
                v = ("i", int(ip.variants(v[1])[v[2]]["discr"]), "i128")
            return ip.cast_int(st, v, DT)
        if k == "IntToFloat":
            if v[0] == "i" and v[1].bit_length() <= 24:
                f = struct.pack("<d" if DT == "f64" else "<f", float(v[1]))
                return ("f", int.from_bytes(f, "little"), DT)
            return sym("tof", (v,), DT)
        if k == "FloatToInt":
            return sym("ftoi", (v,), DT)
        if k == "FloatToFloat":
            return sym("f2f", (v,), DT)
        if k in ("PointerCoercion", "PtrToPtr", "BoxDerefTransmute", "FnPtrToPtr", "Subtype"):
            return v
        if k == "Transmute":
            if T == DT:
                return v
        raise Unsupported("cast %s from %s to %s in %s" % (k, ip.tname(T), ip.tname(DT), self.info["path"]))

    # ------------------------------------------------------------ one path
    def exec(self, st, bb, i, visits):
        """run from (bb, i); -> list of ('out', state, outcome) and ('go', state, bb, i, visits)"""
        ip = self.ip
        while True:
            blk = self.blocks[bb]
            stmts = blk["statements"]
            if i < 0:
                i = 0
            elif i == 0:
                if ip.stop is not None and self is ip.stop[0] and bb == ip.stop[1]:
                    if ip.stop[2]:
                        return [("out", st, ("stop",))]
                    ip.stop = (ip.stop[0], bb, True)
                visits = dict(visits)
                visits[bb] = visits.get(bb, 0) + 1
                if visits[bb] > 1 and ip.prune is not None and ip.prune(st):
                    return []
                if ip.round is not None:
                    r = ip.round(self, st, bb, visits)
                    if r is not None:
                        return r
                if visits[bb] > ip.loop_limit:
                    ip.truncated += 1
                    return [("out", st, ("cut", self.info["path"]))]
                if visits[bb] > 1 and self.joining:
                    return [("park", st, bb, visits)]
            while i < len(stmts):
                ip.stats["steps"] += 1
                if ip.stats["steps"] > ip.step_budget:
                    raise Unsupported("analysis budget in %s" % self.info["path"])
                if ip.deadline is not None and not ip.stats["steps"] & 255 and time.time() > ip.deadline:
                    raise Unsupported("analysis time in %s" % self.info["path"])
                k = stmts[i]["kind"]
                if isinstance(k, dict) and ("Assign" in k or "SetDiscriminant" in k):
                    try:
                        if "Assign" in k:
                            p, r = k["Assign"]
                            ptr, T = self.place(st, p)
                            v = self.rvalue(st, r, T)
                            self.assign(st, ptr, v)
                        else:
                            raise Unsupported("SetDiscriminant")
                    except NeedSplit as ns:
                        return [("go", s, bb, i or -1, visits) for s in reversed(ip.fork(st, ns.alts))]
                elif isinstance(k, dict) and "StorageDead" in k:
                    st.cells.pop(self.cell(k["StorageDead"]), None)
                elif isinstance(k, dict) and "Intrinsic" in k:
                    pass  # assume / copy_nonoverlapping (the latter is not produced by the modelled code)
                i += 1
            t = blk["terminator"]["kind"]
            try:
                r = self.term(st, t, bb, visits)
            except NeedSplit as ns:
                return [("go", s, bb, len(stmts) or -1, visits) for s in reversed(ip.fork(st, ns.alts))]
            if r[0] == "goto":
                bb, i = r[1], 0
                continue
            return r[1]

    def assign(self, st, ptr, v):
        if not ptr[2]:
            st.cells[ptr[1]] = v
        else:
            self.ip.store(st, ptr, v)

    def term(self, st, t, bb, visits):
        ip = self.ip
        if isinstance(t, str):
            if t == "Return":
                v = st.cells.get(self.cell(0), UNIT)
                return ("list", [("out", st, ("ret", st.res(v)))])
            if t == "Unreachable":
                return ("list", [])
            if t in ("Resume", "Abort"):
                return ("list", [])
            raise Unsupported("terminator %s" % t)
        k = next(iter(t))
        x = t[k]
        if k == "Goto":
            return ("goto", x["target"])
        if k == "SwitchInt":
            d = st.res(self.operand(st, x["discr"]))
            br, other = x["targets"]["branches"], x["targets"]["otherwise"]
            T = self.operand_ty(st, x["discr"])
            if T == "bool" and d[0] == "sym":
                r = ip.truth(st, d)
                d = ("i", int(r), "bool")
            if d[0] == "i":
                n = d[1]
                for val, tgt in br:
                    val = int(val)
                    if T in PRIMS and T[0] == "i":
                        val = ip.wrap(val, T)
                    if val == n:
                        return ("goto", tgt)
                return ("goto", other)
            if d[0] == "sym":
                alts, vals = [], []
                for val, tgt in br:
                    val = int(val)
                    if T in PRIMS and T[0] == "i":
                        val = ip.wrap(val, T)
                    vals.append(val)
                    alts.append([("bind", d, ("i", val, T))])
                alts.append([("ne", d, v) for v in vals])
                # after the split either the value is known or every branch value is excluded
                lo, hi = ip.itv(st, d)
                if all(v in st.ne.get(d, ()) or v < lo or v > hi for v in vals):
                    return ("goto", other)
                raise NeedSplit(alts)
            raise Unsupported("switch on a %s value" % d[0])
        if k == "Assert":
            c = st.res(self.operand(st, x["cond"]))
            r = ip.truth(st, c)
            if r == x["expected"]:
                return ("goto", x["target"])
            return ("list", [("out", st, self.panic_of_assert(x["msg"]))])
        if k == "Drop":
            ptr, T = self.place(st, x["place"])
            if ip.has_drop_impl:
                raise Unsupported("a local type implements Drop: %s" % ip.has_drop_impl)
            return ("goto", x["target"])
        if k == "Call":
            return self.do_call(st, x, bb, visits)
        if k == "FalseEdge" or k == "FalseUnwind":
            return ("goto", x.get("real_target", x.get("target")))
        raise Unsupported("terminator %s" % k)

    def panic_of_assert(self, msg):
        k = msg if isinstance(msg, str) else next(iter(msg))
        kind = {"Overflow": "overflow", "OverflowNeg": "overflow", "DivisionByZero": "divzero", "RemainderByZero": "divzero",
                "BoundsCheck": "bounds"}.get(k, k)
        return ("panic", kind, k, self.info["path"], tuple(self.ip.stack))

    def do_call(self, st, x, bb, visits):
        ip = self.ip
        f = x["func"]
        if "Constant" in f:
            T = ip.canon(f["Constant"]["const_"]["ty"])
            # canonical types forget lifetimes only, so resolution is the same
            info = ip.resolve_fn(T)
            args = [self.operand(st, a) for a in x["args"]]
            dptr, DT = self.place(st, x["destination"])
            if x["target"] is None:
                p = self.panic_call(st, info, args)
                if p is not None:
                    return ("list", [("out", st, p)])
            if info.get("defkind") == "Closure":
                # through Fn*::call*: the arguments come as a tuple
                outs = ip.call_value(st, args[0], ip.tuple_items(st, args[1]))
            else:
                outs = ip.call(st, info, args)
        else:
            fv = self.operand(st, f)
            args = [self.operand(st, a) for a in x["args"]]
            dptr, DT = self.place(st, x["destination"])
            outs = ip.call_value(st, fv, args)
        res = []
        for s, o in outs:
            if o[0] == "ret":
                if x["target"] is None:
                    continue
                self.assign(s, dptr, o[1])
                res.append(("go", s, x["target"], 0, visits))
            else:
                res.append(("out", s, o))
        if len(res) == 1 and res[0][0] == "go":
            # keep running this path without going through the work list
            return ("list", res)
        return ("list", list(reversed(res)))

    def panic_call(self, st, info, args):
        """diverging call: the panic it stands for"""
        p = info["path"]
        n = p.split("::")[-1]
        if info["local"]:
            return None
        msg = n
        try:
            if args:
                v = st.res(args[0])
                if v[0] == "ptr":
                    v = self.ip.load(st, v)
                if v[0] == "s":
                    msg = "".join(q if isinstance(q, str) else "{}" for q in v[1])
                elif v[0] == "fmtargs":
                    msg = "".join(q if isinstance(q, str) else "{}" for q in v[1] if isinstance(q, str) or q)
        except Unsupported:
            pass
        kind = "overflow" if "overflow" in n else "divzero" if "by_zero" in n else "bounds" if "bounds" in n else "panic"
        if p.startswith("std::process::") or "abort" in n:
            kind = "exit"
        return ("panic", kind, msg, self.info["path"], tuple(self.ip.stack))


def models_cmp(ip, st, a, b, DT):
    """three-way comparison of two integers as core::cmp::Ordering"""
    lt = ip.truth(st, ip.c_lt(a, b))
    if lt:
        return ip.mk(DT, "Less")
    if ip.truth(st, sym("eq", ip.eqargs(st.res(a), st.res(b)), "bool")):
        return ip.mk(DT, "Equal")
    return ip.mk(DT, "Greater")


def _targs_of_inst(self, info):
    return [self.canon(x) for x in info.get("args", [])]


Interp.targs_of_inst = _targs_of_inst
