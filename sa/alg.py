"""Values of terms: rational functions over named quantities and elementary functions of them.
Two terms have the same value if their normal forms agree; what a path knows about its inputs
is used as equations between the quantities."""
import struct
from fractions import Fraction
from .interp import I, Unsupported, sym, PRIMS
from .contracts import value, deep

PI_BITS = int.from_bytes(struct.pack("<d", 3.141592653589793), "little")
E_BITS = int.from_bytes(struct.pack("<d", 2.718281828459045), "little")


ARITH_OPS = ("add", "sub", "mul", "neg", "cast", "div", "rem", "gcd")
CONSTS = ("n", "v", "i", "f", "fc", "pi", "e", "quot", "rem", "gcd", "abs")


class P:
    """polynomials: {monomial: coefficient}, monomial = ((atom, exponent), ...) sorted"""

    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + k * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mmul(m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted((a, e) for a, e in d.items() if e))

    @staticmethod
    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = P.mmul(m, n)
                x = r.get(k, 0) + c * d
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return r

    @staticmethod
    def scale(a, c):
        return {m: x * c for m, x in a.items()} if c else {}


class R:
    """num/den"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        d = {(): Fraction(1)} if d is None else d
        if not n:
            d = {(): Fraction(1)}
        elif len(d) == 1:
            # divide by a monomial: cancel what can be cancelled
            (m, c), = d.items()
            if c != 1:
                n = P.scale(n, 1 / c)
                d = {m: Fraction(1)}
            if m:
                common = dict(m)
                for k in n:
                    kd = dict(k)
                    for a in list(common):
                        common[a] = min(common[a], kd.get(a, 0))
                        if not common[a]:
                            del common[a]
                if common:
                    def cut(k):
                        return tuple((a, e - common.get(a, 0)) for a, e in k if e - common.get(a, 0))
                    n = {cut(k): c for k, c in n.items()}
                    d = {cut(m): Fraction(1)}
        self.n, self.d = n, d

    @staticmethod
    def c(x):
        return R(P.const(x))

    def __add__(self, o):
        if self.d == o.d:
            return R(P.add(self.n, o.n), self.d)
        return R(P.add(P.mul(self.n, o.d), P.mul(o.n, self.d)), P.mul(self.d, o.d))

    def __neg__(self):
        return R(P.scale(self.n, -1), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return R(P.mul(self.n, o.n), P.mul(self.d, o.d))

    def const(self):
        """the number this is, or None"""
        if not self.n:
            return Fraction(0)
        if list(self.n) == [()] and list(self.d) == [()]:
            return self.n[()] / self.d[()]
        if len(self.n) == len(self.d):
            # n = c * d
            c = None
            for m, x in self.n.items():
                if m not in self.d:
                    return None
                q = x / self.d[m]
                if c is not None and q != c:
                    return None
                c = q
            return c
        return None

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}


ZERO, ONE = R.c(0), R.c(1)


class Undefined(Exception):
    """division by exactly zero"""


class Alg:
    def __init__(self, w, st, equations=True):
        self.w, self.ip, self.st = w, w.ip, st
        self.names = []           # atom number -> key
        self.num = {}             # key -> atom number
        self.kern = []            # (head, args, atom)
        self.subs = {}
        self.sq = {}              # atom -> R for its square
        self.conds = None
        self.infeasible = False   # the path's facts contradict each other
        self.rest = []
        self.strnames()
        if equations:
            self.solve()

    # ---------------------------------------------------------- names
    def strnames(self):
        self.rep, self.differ = {}, set()
        for t, v in list(self.st.bind.items()):
            if t[1] == "streq" and v[0] == "i":
                a, b = self.nm(t[2][0]), self.nm(t[2][1])
                if v[1] == 0:
                    self.differ.add((a, b))
                    continue
                a, b = self.find(a), self.find(b)
                if a != b:
                    if a[0] == "s":      # literals win
                        a, b = b, a
                    self.rep[a] = b

    def nm(self, t):
        """a name: a text value or its pieces"""
        if t and t[0] in ("s", "sym", "ptr", "adt"):
            t = value(self.w, self.st, t)
            if t[0] == "adt":
                t = value(self.w, self.st, self.ip.get_field(self.st, t, None, self.w.v_name))
            if t[0] != "s":
                return t
            t = t[1]
        if len(t) == 1 and not isinstance(t[0], str) and t[0][0] == "d" and t[0][2] == "":
            return self.st.res(t[0][1])
        return ("s", t)

    def find(self, x):
        x = self.nm(x)
        while x in self.rep:
            x = self.rep[x]
        return x

    def same_name(self, a, b):
        """True / False / None"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if a[0] == "s" and b[0] == "s" and all(isinstance(p, str) for p in a[1] + b[1]):
            return False
        for p, q in self.differ:
            p, q = self.find(p), self.find(q)
            if (p, q) in ((a, b), (b, a)):
                return False
        return None

    # ---------------------------------------------------------- atoms
    def atom_id(self, key):
        i = self.num.get(key)
        if i is None:
            i = self.num[key] = len(self.names)
            self.names.append(key)
        return i

    def atom(self, key):
        i = self.atom_id(key)
        if i in self.subs:
            return self.subs[i]
        return R({((i, 1),): Fraction(1)})

    def red(self, p):
        """use sq[a] for the square of a"""
        if not self.sq:
            return p
        while True:
            for m in p:
                hit = [(a, e) for a, e in m if e >= 2 and a in self.sq]
                if hit:
                    break
            else:
                return p
            a, e = hit[0]
            c = p[m]
            rest = tuple((b, x if b != a else x - 2) for b, x in m if b != a or x > 2)
            q = dict(p)
            del q[m]
            s = self.sq[a]
            assert list(s.d) == [()]
            p = P.add(q, P.mul({rest: c}, s.n))

    def is0(self, r):
        return not self.red(r.n)

    def eq(self, a, b):
        return not self.red(P.add(P.mul(a.n, b.d), P.mul(b.n, a.d), -1))

    def div(self, a, b):
        if self.is0(b):
            raise Undefined()
        return R(P.mul(a.n, b.d), P.mul(a.d, b.n))

    def kernel(self, head, *args):
        for h, xs, a in self.kern:
            if h == head and len(xs) == len(args) and all(self.eq(x, y) for x, y in zip(xs, args)):
                return self.atom(a)
        key = (head, len(self.kern))
        self.kern.append((head, args, key))
        return self.atom(key)

    def neg_lead(self, r):
        """is the first coefficient negative (with a positive denominator convention)"""
        if not r.n:
            return False
        m = min(r.n)
        s = r.n[m] * (1 if r.d[min(r.d)] > 0 else -1)
        return s < 0

    def pi_multiple(self, r):
        """k with r = k*pi"""
        i = self.num.get(("pi",))
        if self.is0(r):
            return Fraction(0)
        if i is None or list(r.d) != [()] or list(r.n) != [((i, 1),)]:
            return None
        return r.n[((i, 1),)] / r.d[()]

    def pi(self):
        return self.atom(("pi",))

    def euler(self):
        return self.atom(("e",))

    def sin(self, r):
        k = self.pi_multiple(r)
        if k is not None and (2 * k).denominator == 1:
            return R.c((0, 1, 0, -1)[int(2 * k) % 4])
        if self.neg_lead(r):
            return -self.sin(-r)
        return self.kernel("sin", r)

    def cos(self, r):
        k = self.pi_multiple(r)
        if k is not None and (2 * k).denominator == 1:
            return R.c((1, 0, -1, 0)[int(2 * k) % 4])
        if self.neg_lead(r):
            r = -r
        return self.kernel("cos", r)

    def ipow(self, r, n):
        if n < 0:
            return self.div(ONE, self.ipow(r, -n))
        out = ONE
        while n:
            if n & 1:
                out = out * r
            r = r * r
            n >>= 1
        return out

    def exp(self, r):
        out = ONE
        for m, c in r.n.items():
            if list(r.d) == [()]:
                c = c / r.d[()]
                if m == ():
                    if c.denominator == 1:
                        out = out * self.ipow(self.euler(), int(c))
                    else:
                        out = out * self.ipow(self.kernel("exp", R.c(Fraction(1, c.denominator))), int(c.numerator))
                    continue
                if len(m) == 1 and m[0][1] == 1 and self.names[m[0][0]][0] == "ln" and c.denominator == 1:
                    arg = [x for h, x, a in self.kern if a == self.names[m[0][0]]][0][0]
                    out = out * self.ipow(arg, int(c))
                    continue
                base, k = R({m: Fraction(1, c.denominator)}), c.numerator
            else:
                base, k = R({m: Fraction(1, c.denominator)}, r.d), c.numerator
            out = out * self.ipow(self.kernel("exp", base), int(k))
        return out

    def ln(self, r):
        if list(r.d) == [()] or len(r.d) == 1:
            if len(r.n) == 1:
                # a product of exponentials
                (m, c), = r.n.items()
                (md, cd), = r.d.items()
                if c == cd:
                    out, ok = ZERO, True
                    for mm, sgn in ((m, 1), (md, -1)):
                        for a, e in mm:
                            k = self.names[a]
                            if k == ("e",):
                                out = out + R.c(e * sgn)
                            elif k[0] == "exp":
                                arg = [x for h, x, b in self.kern if b == k][0][0]
                                out = out + arg * R.c(e * sgn)
                            else:
                                ok = False
                    if ok:
                        return out
        return self.kernel("ln", r)

    def pow(self, u, v):
        c = v.const()
        if c is not None and c.denominator == 1:
            return self.ipow(u, int(c))
        if self.eq(u, ONE):
            return ONE
        if self.is0(u):
            if self.positive(v):
                return ZERO
            return self.kernel("pow0", v)
        if self.positive(u):
            return self.exp(v * self.ln(u))
        # u^(v+w) = u^v * u^w and u^(n*v) = (u^v)^n where all of them are defined
        out = ONE
        for m, c in v.n.items():
            if list(v.d) == [()]:
                c = c / v.d[()]
                if m == ():
                    k = c.numerator // c.denominator
                    out = out * self.ipow(u, k)
                    if c != k:
                        out = out * self.ipow(self.kernel("pow", u, R.c(Fraction(1, c.denominator))), int((c - k) * c.denominator))
                    continue
                base = R({m: Fraction(1, c.denominator)})
            else:
                base = R({m: Fraction(1, c.denominator)}, v.d)
            out = out * self.ipow(self.kernel("pow", u, base), int(c.numerator))
        return out

    def positive(self, r):
        c = r.const()
        if c is not None:
            return c > 0
        if all(k > 0 and all(self.names[a][0] in ("pi", "e", "exp") for a, _ in m) for p in (r.n, r.d) for m, k in p.items()):
            return True
        if len(r.n) == 1 and list(r.d) == [()]:
            (m, k), = r.n.items()
            if len(m) == 1 and m[0][1] == 1 and k > 0:
                key = self.names[m[0][0]]
                if key[0] == "n":
                    lo, hi = self.ip.itv(self.st, sym("nsign", (key[1],), "i64"))
                    return lo > 0
        return False

    # ---------------------------------------------------------- equations
    def solve(self):
        """quantities whose value a path knows"""
        w, st, ip = self.w, self.st, self.ip
        eqs = []
        for t in list(st.bind):
            if t[1] == "fld":
                b, var, i = t[2]
                bt = ip.ty_of(b)
                if bt == w.E and i == w.e_root:
                    eqs.append(("expr", b))
                elif bt == w.Num:
                    eqs.append(("num", b))
                elif bt == w.Node or bt == w.Opd or bt == w.Opr:
                    # find the expression this is a part of
                    x = b
                    while x[0] == "sym" and x[1] == "fld" and ip.ty_of(x) != w.E:
                        x = x[2][0]
                        if ip.ty_of(x) == w.E:
                            eqs.append(("expr", x))
                            break
                elif bt == w.Val:
                    eqs.append(("val", b))
            elif t[1] == "eq":
                if st.bind[t][1] == 1:
                    eqs.append(("eq", t[2]))
            elif t[3] in PRIMS and t[3] != "bool" and t[1] in ARITH_OPS and st.bind[t][0] == "i":
                eqs.append(("eq", (t, st.bind[t])))
            elif t[3] in PRIMS and t[3] != "bool" and t[1] == "fld" and ip.ty_of(t[2][0]) == w.Rat:
                pass
            # the value of an operation whose kind became known
            if t[1] in ("vadd", "vsub", "vmul", "vdiv", "vneg"):
                eqs.append(("val", t))
        seen, uniq = set(), []
        for q in eqs:
            if q not in seen:
                seen.add(q)
                uniq.append(q)
        for _ in range(len(uniq) + 1):
            new = False
            self.rest = []
            for k, x in uniq:
                try:
                    if k == "expr":
                        if w.parts(st, x) is None:
                            continue
                        a, b = self.by_def(x), self.by_parts(x)
                    elif k == "num":
                        a, b = self.num_def(x), self.num_known(x)
                        if b is None:
                            continue
                    elif k == "val":
                        v = st.res(x)
                        if v[0] != "adt":
                            continue
                        a = self.numval_def(x)
                        try:
                            b = self.numval(v)
                        except Undefined:
                            # an operation with a value does not give a fraction without one
                            self.infeasible = True
                            continue
                    else:
                        a, b = self.int_def(x[0]), self.int_def(x[1])
                except (Undefined, Unsupported):
                    continue
                d = a - b
                if self.is0(d):
                    continue
                if d.const() is not None:
                    self.infeasible = True
                    continue
                if self.add_sub(d, a):
                    new = True
                    break
                self.rest.append(d)
            if not new:
                return

    def add_sub(self, d, pref):
        """d = 0: express one quantity by the others"""
        p = self.red(d.n)
        cands = []
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if all(a not in dict(k) for k in p if k != m):
                    key = self.names[a]
                    cands.append(((0 if list(pref.n) == [m] else 1, 0 if key[0] in ("x", "n", "i") else 2), a, c))
        for _, a, c in sorted(cands):
            key = self.names[a]
            if key[0] in ("pi", "e"):
                continue
            rest = {m: -x / c for m, x in p.items() if m != ((a, 1),)}
            val = R(rest)
            # not through a function of itself
            if self.mentions(val, a):
                continue
            self.subs[a] = val
            for b in list(self.subs):
                self.subs[b] = self.apply_subs(self.subs[b], {a: val})
            self.kern = [(h, tuple(self.apply_subs(x, {a: val}) for x in xs), k) for h, xs, k in self.kern]
            return True
        return False

    def mentions(self, r, a):
        for b in r.atoms():
            if b == a:
                return True
            key = self.names[b]
            for h, xs, k in self.kern:
                if k == key and any(self.mentions(x, a) for x in xs):
                    return True
        return False

    def apply_subs(self, r, subs):
        def poly(p):
            out = ZERO
            for m, c in p.items():
                t = R.c(c)
                for a, e in m:
                    t = t * self.ipow(subs.get(a, R({((a, 1),): Fraction(1)})), e)
                out = out + t
            return out
        if not any(a in subs for a in r.atoms()):
            return r
        return self.div(poly(r.n), poly(r.d))

    def known0(self, r):
        """is r zero, also by the equations that could not be solved for a quantity"""
        if self.is0(r):
            return True
        p = self.red(r.n)
        for d in self.rest:
            q = self.red(d.n)
            if set(p) == set(q):
                m = next(iter(p))
                k = p[m] / q[m]
                if all(p[x] == k * q[x] for x in p):
                    return True
        return self.eliminate(p, [self.red(d.n) for d in self.rest], 3)

    def eliminate(self, p, eqs, depth):
        """p = 0 from eqs = 0, by solving an equation for a quantity with a coefficient that is not zero"""
        if not p:
            return True
        if not depth:
            return False
        for k, q in enumerate(eqs):
            for m in q:
                for a, e in m:
                    if e != 1 or any(a in dict(x) for x in q if x != m):
                        continue
                    co = {tuple((b, n) for b, n in m if b != a): q[m]}
                    if not all(self.atom_nz(b) for x in co for b, _ in x):
                        continue
                    # a = -(rest of q) / co
                    sub = R({x: -c for x, c in q.items() if x != m}, co)

                    def put(poly):
                        return self.red(self.apply_subs(R(poly), {a: sub}).n)
                    try:
                        if self.eliminate(put(p), [put(x) for i, x in enumerate(eqs) if i != k], depth - 1):
                            return True
                    except Undefined:
                        continue
        return False

    def atom_nz(self, a):
        key = self.names[a]
        if key[0] in ("pi", "e", "exp"):
            return True
        if key[0] == "i":
            lo, hi = self.ip.itv(self.st, key[1])
            return lo > 0 or hi < 0 or 0 in self.st.ne.get(key[1], ())
        for h, xs, k in self.kern:
            if k == key and h == "gcd":
                return any(len(x.n) == 1 == len(x.d) and all(self.atom_nz(b) for m in x.n for b, _ in m) for x in xs)
        return False

    def same(self, a, b):
        return self.eq(a, b) or self.known0(a - b)

    # ---------------------------------------------------------- values
    def expr(self, e):
        """value of an expression term"""
        e = value(self.w, self.st, e)
        if self.w.parts(self.st, e) is not None:
            return self.by_parts(e)
        return self.by_def(e)

    def key(self, e):
        """name of an unknown expression; aggregating does not change what it denotes"""
        e = deep(self.w, self.st, e)
        return self.strip(e)

    def strip(self, t):
        while t[0] == "sym" and t[1] == "agg":
            t = self.st.res(t[2][0])
        return t

    def by_def(self, e):
        e = self.st.res(e)
        if e[0] != "sym":
            raise Unsupported("value of %s" % self.ip.show(e))
        op, a = e[1], e[2]
        if op == "agg":
            return self.expr(a[0])
        if op == "deriv":
            return self.D(self.expr(a[0]), a[1])
        if op == "subst":
            return self.subst(a[0], a[1], a[2])
        if op == "limv":
            return self.atom(("x", e))
        return self.atom(("x", self.key2(e)))

    def key2(self, e):
        if e[1] in ("in", "child", "fld"):
            return e
        return self.strip(deep(self.w, self.st, e))

    def by_parts(self, e):
        p = self.w.parts(self.st, e)
        if p[0] == "num":
            return self.number(p[1])
        if p[0] == "var":
            return self.atom(("var", self.find(p[1])))
        xs = [self.expr(k) for k in p[2]]
        return self.op(p[1], xs)

    def op(self, name, xs):
        if name == "Neg":
            return -xs[0]
        if name == "Add":
            return xs[0] + xs[1]
        if name == "Sub":
            return xs[0] - xs[1]
        if name == "Mul":
            return xs[0] * xs[1]
        if name == "Div":
            return self.div(xs[0], xs[1])
        if name == "Sin":
            return self.sin(xs[0])
        if name == "Cos":
            return self.cos(xs[0])
        if name == "Exp":
            return self.exp(xs[0])
        if name == "Ln":
            return self.ln(xs[0])
        if name == "Pow":
            return self.pow(xs[0], xs[1])
        raise Unsupported("operation %s" % name)

    def subst(self, e, name, v):
        return self.S(self.expr(e), name, self.expr(v))

    def S(self, r, name, v):
        """value of r after replacing the variable called name by something of value v"""
        def poly(p):
            out = ZERO
            for m, c in p.items():
                t = R.c(c)
                for a, e in m:
                    t = t * self.ipow(self.Satom(a, name, v), e)
                out = out + t
            return out
        return self.div(poly(r.n), poly(r.d))

    def Satom(self, a, name, v):
        k = self.names[a]
        if k[0] == "var":
            s = self.same_name(k[1], name)
            if s is not None:
                return v if s else self.atom(k)
            return self.kernel(("S", k, self.find(name)), v)
        if k[0] in CONSTS:
            return self.atom(k)
        if k[0] in ("x", "D", "dvar"):
            return self.kernel(("S", k, self.find(name)), v)
        for h, xs, key in self.kern:
            if key == k:
                if isinstance(h, tuple) or h[0] == "D":
                    return self.kernel(("S", (h,) + tuple(self.freeze(x) for x in xs), self.find(name)), v)
                ys = [self.S(x, name, v) for x in xs]
                if h in ("sin", "cos", "exp", "ln"):
                    return getattr(self, h)(*ys)
                if h == "pow0":
                    return self.pow(ZERO, ys[0])
                if h == "pow":
                    return self.pow(ys[0], ys[1])
                return self.kernel(h, *ys)
        raise Unsupported("substitution in %s" % (k,))

    def freeze(self, r):
        return (tuple(sorted(r.n.items())), tuple(sorted(r.d.items())))

    # numbers
    def number(self, n):
        n = value(self.w, self.st, n)
        k = self.num_known(n)
        return k if k is not None else self.num_def(n)

    def num_known(self, n):
        w, st, ip = self.w, self.st, self.ip
        tag, val = w.quiet_field(st, n, w.n_tag), w.quiet_field(st, n, w.n_val)
        if tag[0] == "adt":
            t = ip.variants(w.Tag)[tag[2]]["name"]
            if t == "Zero":
                return ZERO
            if t == "One":
                return ONE
            if t == "Pi":
                return self.pi()
            if t == "E":
                return self.euler()
        if val[0] == "adt":
            return self.numval(val)
        if n[0] == "adt" and val[0] == "sym":
            return self.numval(val)
        return None

    def num_def(self, n):
        n = self.st.res(n)
        if n[0] == "sym":
            op, a = n[1], n[2]
            if op == "nadd":
                return self.number(a[0]) + self.number(a[1])
            if op == "nsub":
                return self.number(a[0]) - self.number(a[1])
            if op == "nmul":
                return self.number(a[0]) * self.number(a[1])
            if op == "ndiv":
                return self.div(self.number(a[0]), self.number(a[1]))
            if op == "nneg":
                return -self.number(a[0])
            return self.atom(("n", n))
        raise Unsupported("number %s" % self.ip.show(n))

    def numval(self, v):
        w, st, ip = self.w, self.st, self.ip
        v = value(w, st, v)
        if v[0] == "adt":
            vn = ip.variants(w.Val)[v[2]]["name"]
            if vn == "Integer":
                return self.int(v[3][0])
            if vn == "Rational":
                return self.rat(v[3][0])
            return self.flt(v[3][0])
        return self.numval_def(v)

    def numval_def(self, v):
        w, st, ip = self.w, self.st, self.ip
        op, a = v[1], v[2]
        if op in ("vadd", "vsub", "vmul", "vdiv", "vneg"):
            xs = [self.numval(x) for x in a]
            return self.op({"vadd": "Add", "vsub": "Sub", "vmul": "Mul", "vdiv": "Div", "vneg": "Neg"}[op], xs)
        if op == "fld" and ip.ty_of(a[0]) == w.Num and st.res(a[0])[0] == "sym":
            return self.number(a[0]) if self.num_has_def(a[0]) else self.atom(("n", st.res(a[0])))
        return self.atom(("v", v))

    def num_has_def(self, n):
        n = self.st.res(n)
        return n[0] == "sym" and n[1] in ("nadd", "nsub", "nmul", "ndiv", "nneg")

    def rat(self, r):
        w, st, ip = self.w, self.st, self.ip
        r = value(w, st, r)
        if r[0] == "sym" and r[1] in ("radd", "rsub", "rmul", "rdiv", "rneg", "rreduce"):
            xs = [self.rat(x) for x in r[2]]
            if r[1] == "rreduce":
                return xs[0]
            return self.op({"radd": "Add", "rsub": "Sub", "rmul": "Mul", "rdiv": "Div", "rneg": "Neg"}[r[1]], xs)
        s, n, d = (ip.get_field(st, r, None, i) for i in (w.r_sign, w.r_nom, w.r_den))
        return self.div(self.int(s) * self.int(n), self.int(d))

    def sign_atom(self, t):
        """t is +1 or -1"""
        i = self.atom_id(("i", t))
        self.sq.setdefault(i, ONE)

    def int(self, t):
        return self.int_def(self.st.res(t))

    def int_def(self, t):
        """value of an integer by the operation that gave it"""
        if t[0] == "i":
            return R.c(t[1])
        if t[0] != "sym":
            raise Unsupported("integer value of a %s" % t[0])
        op, a = t[1], t[2]
        if op == "add":
            return self.int(a[0]) + self.int(a[1])
        if op == "sub":
            return self.int(a[0]) - self.int(a[1])
        if op == "mul":
            return self.int(a[0]) * self.int(a[1])
        if op == "neg":
            return -self.int(a[0])
        if op == "cast":
            return self.int(a[0])
        if op == "div":
            n, d = self.int(a[0]), self.int(a[1])
            if self.exact_div(a[0], a[1]):
                return self.div(n, d)
            return self.kernel("quot", n, d)
        if op == "rem":
            return self.kernel("rem", self.int(a[0]), self.int(a[1]))
        if op == "gcd":
            x, y = self.int(a[0]), self.int(a[1])
            for h, xs, k in self.kern:
                if h == "gcd" and self.eq(xs[0], y) and self.eq(xs[1], x):
                    return self.atom(k)
            return self.kernel("gcd", x, y)
        return self.atom(("i", t))

    def exact_div(self, n, d):
        """d divides n because it is a common divisor of it"""
        d = self.st.res(d)
        while d[0] == "sym" and d[1] == "cast":
            d = self.st.res(d[2][0])
        if d[0] == "i" and abs(d[1]) == 1:
            return True
        nv, dv = self.int(n), self.int(d)
        if self.is0(nv) or self.eq(nv, dv) or self.eq(nv, -dv):
            return True
        if d[0] == "sym" and d[1] == "gcd":
            v = self.int(n)
            return any(self.eq(v, self.int(x)) or self.eq(v, -self.int(x)) for x in d[2])
        return False

    def flt(self, t):
        t = self.st.res(t)
        if t[0] == "f":
            if t[2] == "f64" and t[1] == PI_BITS:
                return self.pi()
            if t[2] == "f64" and t[1] == E_BITS:
                return self.euler()
            x = struct.unpack("<d" if t[2] == "f64" else "<f", t[1].to_bytes(8 if t[2] == "f64" else 4, "little"))[0]
            if x != x or x in (float("inf"), float("-inf")):
                return self.atom(("fc", t[1], t[2]))
            return R.c(Fraction(x))
        if t[0] != "sym":
            raise Unsupported("float value of a %s" % t[0])
        op, a = t[1], t[2]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.op({"fadd": "Add", "fsub": "Sub", "fmul": "Mul", "fdiv": "Div"}[op], [self.flt(x) for x in a])
        if op == "fneg":
            return -self.flt(a[0])
        if op == "tof":
            return self.int(a[0])
        if op == "f2f":
            return self.flt(a[0])
        if op == "nf64":
            return self.number(a[0])
        if op == "vf64":
            return self.numval(a[0])
        if op == "rf64":
            return self.rat(a[0])
        if op == "fabs":
            x = self.flt(a[0])
            if self.neg_lead(x):
                x = -x
            c = x.const()
            return R.c(abs(c)) if c is not None else self.kernel("abs", x)
        return self.atom(("f", t))

    # ---------------------------------------------------------- differentiation
    def D(self, r, name):
        r = self.apply_subs(r, self.subs)

        def poly(p):
            out = ZERO
            for m, c in p.items():
                for j, (a, e) in enumerate(m):
                    rest = R({tuple((b, x if i != j else x - 1) for i, (b, x) in enumerate(m) if i != j or x > 1): c * e})
                    out = out + rest * self.Datom(a, name)
            return out
        n, d = R(r.n), R(r.d)
        dn, dd = poly(r.n), poly(r.d)
        if self.is0(dd):
            return self.div(dn, d)
        return self.div(dn * d - n * dd, d * d)

    def Datom(self, a, name):
        k = self.names[a]
        if k[0] in CONSTS or k[0] == "dvar":
            return ZERO
        if k[0] == "var":
            s = self.same_name(k[1], name)
            if s is None:
                return self.atom(("dvar", k[1], self.find(name)))
            return ONE if s else ZERO
        if k[0] in ("x", "D") or isinstance(k[0], tuple):
            return self.atom(("D", k, self.find(name)))
        for h, xs, key in self.kern:
            if key == k:
                x = xs[0]
                dx = self.D(x, name)
                me = self.atom(k)
                if h == "sin":
                    return self.cos(x) * dx
                if h == "cos":
                    return -self.sin(x) * dx
                if h == "exp":
                    return me * dx
                if h == "ln":
                    return self.div(dx, x)
                if h == "pow":
                    return me * (self.D(xs[1], name) * self.ln(x) + self.div(xs[1] * dx, x))
                if self.is0(dx) and all(self.is0(self.D(y, name)) for y in xs):
                    return ZERO
                return self.kernel("D" + h, x, dx)
        raise Unsupported("derivative of %s" % (k,))

    # ---------------------------------------------------------- show
    def show(self, r):
        def mono(m):
            return "*".join(self.show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)

        def poly(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items()):
                s = mono(m)
                out.append(str(c) if not s else s if c == 1 else "-" + s if c == -1 else "%s*%s" % (c, s))
            return " + ".join(out)
        if list(r.d) == [()] and r.d[()] == 1:
            return poly(r.n)
        return "(%s) / (%s)" % (poly(r.n), poly(r.d))

    def show_atom(self, a):
        k = self.names[a]
        if k[0] in ("pi", "e"):
            return k[0]
        if k[0] in ("x", "n", "v", "i", "f", "var"):
            return self.ip.show(k[1])
        if k[0] == "D":
            return "d(%s)" % (self.ip.show(k[1][1]) if k[1][0] in ("x", "s") else "d…")
        if isinstance(k[0], tuple):
            xs = [x for h, x, key in self.kern if key == k][0]
            k0 = k[0][1]
            nm = self.ip.show(k0[1]) if k0[0] in ("x", "var") else "d(%s)" % self.ip.show(k0[1][1]) if k0[0] == "D" and k0[1][0] == "x" else str(k0[0])
            return "%s[%s:=%s]" % (nm, self.ip.show(k[0][2]), self.show(xs[0]))
        for h, xs, key in self.kern:
            if key == k:
                return "%s(%s)" % (h, ", ".join(self.show(x) for x in xs))
        return str(k)
