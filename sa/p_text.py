"""C08: the text of an expression reads back as an expression of the same value."""
import re
from fractions import Fraction
from .common import *
from .p_num import nums, fmt_text, norm_pieces, show_pieces
from .p_expr import new_ops

# how tightly a text binds, by its outermost operation outside parentheses
SUM, PRODUCT, SIGNED, POWER, CALL, ATOM = range(6)
LEVEL = {"Add": SUM, "Sub": SUM, "Mul": PRODUCT, "Div": PRODUCT, "Neg": SIGNED, "Pow": POWER,
         "Sin": CALL, "Cos": CALL, "Exp": CALL, "Ln": CALL}
# how tightly an operand's text has to bind to be read as that operand (or to the same value)
NEEDS = {"Add": (SUM, SUM), "Sub": (SUM, PRODUCT), "Mul": (PRODUCT, PRODUCT), "Div": (PRODUCT, SIGNED), "Neg": (PRODUCT,),
         "Pow": (CALL, SIGNED), "Sin": (CALL,), "Cos": (CALL,), "Exp": (CALL,), "Ln": (CALL,)}
FUNCS = {"sin": "Sin", "cos": "Cos", "exp": "Exp", "ln": "Ln"}
LNAME = ["a sum", "a product", "a signed operand", "a power", "a function", "an atom"]


class Unreadable(Exception):
    pass


# ------------------------------------------------------------------ reading a text with holes
def tokens(ps):
    out = []
    for p in ps:
        if not isinstance(p, str):
            out.append(("hole", p))
            continue
        i = 0
        while i < len(p):
            ch = p[i]
            if ch.isspace():
                i += 1
            elif ch in "+-*/^()":
                out.append((ch,))
                i += 1
            elif ch.isdigit():
                m = re.match(r"\d+(\.\d+)?", p[i:])
                out.append(("num", Fraction(m.group(0))))
                i += m.end()
            else:
                m = re.match(r"pi|e(?!xp)|sin|cos|exp|ln", p[i:])
                if not m:
                    raise Unreadable("what %r means is not known" % p[i:])
                w = m.group(0)
                out.append(("func", FUNCS[w]) if w in FUNCS else ("const", w))
                i += m.end()
    return out


class Reader:
    """functions bind tightest, then ^, then unary minus, then * and / from the left, then + and - from the left"""

    def __init__(self, ps):
        self.t = tokens(ps)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end",)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def read(self):
        r = self.sum()
        if self.peek()[0] != "end":
            raise Unreadable("something is left over after %d tokens" % self.i)
        return r

    def sum(self):
        l = self.term()
        while self.peek()[0] in ("+", "-"):
            o = self.next()[0]
            l = ("op", "Add" if o == "+" else "Sub", (l, self.term()))
        return l

    def term(self):
        l = self.unary()
        while self.peek()[0] in ("*", "/"):
            o = self.next()[0]
            l = ("op", "Mul" if o == "*" else "Div", (l, self.unary()))
        return l

    def unary(self):
        if self.peek()[0] == "-":
            self.next()
            return ("op", "Neg", (self.unary(),))
        return self.power()

    def power(self):
        b = self.app()
        if self.peek()[0] == "^":
            self.next()
            return ("op", "Pow", (b, self.unary()))
        return b

    def app(self):
        t = self.peek()
        if t[0] == "func":
            self.next()
            return ("op", t[1], (self.app(),))
        if t[0] == "(":
            self.next()
            r = self.sum()
            if self.next()[0] != ")":
                raise Unreadable("a parenthesis is not closed")
            return ("paren", r)
        if t[0] in ("num", "const", "hole"):
            self.next()
            return t
        raise Unreadable("an operand is missing")


BEFORE = ("d", sym("in", ("text before",), "str"), "")


class Texts:
    """texts of expressions in every context they are asked for"""

    def __init__(self, c):
        self.c, self.w, self.ip = c, c.w, c.w.ip
        w = self.w
        self.leafs = []
        for l, mk, ex, t in nums(w):
            if l in ("integer", "real"):
                for pre, neg in (("", False), ("negative ", True)):
                    self.leafs.append((pre + l, lambda st, n, mk=mk, l=l, neg=neg: self.signed(st, mk(st, n), l, neg)))
            else:
                self.leafs.append((l, mk))
        self.names = OPS + ["variable"] + ["number " + l for l, _ in self.leafs]
        self.fns = {}
        self.outs = {}       # (context, shape) -> [(state, expression, operands, tree or error)]
        self.cls = {}        # (context, shape) -> set of levels
        self.paths = 0
        self.seen = set()

    def payload(self, s, n):
        v = C.value(self.w, s, n)
        return v[3][self.w.n_val][3][0]

    def signed(self, st, n, l, neg):
        ip = self.w.ip
        v = self.payload(st, n)
        if l == "integer":
            ip.assume(st, ("rng", v, -(1 << 63), -1) if neg else ("rng", v, 2, (1 << 63) - 1))
            return n
        sg = sym("ftoi", (sym("fsignum", (v,), v[3]),), "i64")
        ip.assume(st, ("rng", sg, -1, -1) if neg else ("rng", sg, 0, 1))
        ip.assume(st, ("true" if neg else "false", sym("flt", (v, ("f", 0, v[3])), "bool")))
        return n

    # -------------------------------------------------- expressions of every shape
    def make(self, st, name, pre):
        w = self.w
        if name in ARITY:
            kids = [w.expr_in("%s%d" % (pre, i)) for i in range(ARITY[name])]
            return w.mk_op(st, name, kids), kids
        if name == "variable":
            return w.mk_var(w.name_sym(pre + "name")), []
        mk = dict(self.leafs)[name[len("number "):]]
        return w.mk_num(mk(st, pre + "n")), []

    def enter(self, ctx, st, e):
        """outcomes with the pieces of text of e in a context"""
        w, ip = self.w, self.ip
        if ctx == ("display",):
            return fmt_text(w, st, None, e)
        info = self.fns[ctx[0]]
        i, j, fm = C.text_args(w, info)
        rest = list(ctx[1:])
        args, f = [], None
        for k, T in enumerate(ip.arg_tys(info)):
            if k == fm:
                # what a text holds already is none of the function's business
                f = ip.ref(st, ("fmter", (), "") if C.is_fmt(ip, strip_ref(ip, T)) else S(BEFORE))
                args.append(f)
                continue
            if k == i and j is None:
                v = e
            else:
                v = rest.pop(0)
                if k == i:
                    FT = ip.fty(v[1], 0, j)
                    x = e
                    while not isinstance(FT, str) and ip.kind(FT) == "ref":
                        x = ip.ref(st, x)
                        FT = ip.elem(FT)
                    v = ("adt", v[1], v[2], tuple(x if y == ("hole",) else y for y in v[3]))
            while not isinstance(T, str) and ip.kind(T) == "ref":
                v = ip.ref(st, v)
                T = ip.elem(T)
            args.append(v)
        outs = ip.with_splits(st, lambda s: ip.enter(s, info, args))
        out = []
        for s, o in outs:
            if o[0] != "ret":
                out.append((s, o))
            elif fm is None:
                v = C.value(w, s, o[1])
                out.append((s, ("text", v[1] if v[0] == "s" else (("d", v, ""),))))
            else:
                v = ip.load(s, f)
                if v[0] == "s":
                    if v[1][:1] != (BEFORE,):
                        out.append((s, ("unknown text before",)))
                        continue
                    v = (v[0], v[1][1:])
                out.append((s, ("text", v[1])))
        return out

    def analyse(self, ctx, name, kidspec=()):
        """[(state, expression, operands, reading or error, pieces)]"""
        key = (ctx, name, kidspec)
        if key in self.outs:
            return self.outs[key]
        w, ip = self.w, self.ip
        st = State()
        e, kids = self.make(st, name, "c")
        if kidspec:
            kids = [k if sp is None else self.make(st, sp, "c%d" % i)[0] for i, (k, sp) in enumerate(zip(kids, kidspec))]
            e = w.mk_op(st, name, kids)
        res = []
        for s, o in self.enter(ctx, st, e):
            self.paths += 1
            if o[0] != "text":
                res.append((s, e, kids, ("ends in %s" % (o,)), None))
                continue
            ps = norm_pieces(w, s, o[1])
            try:
                tree = Reader(ps).read()
            except Unreadable as x:
                tree = str(x)
            res.append((s, e, kids, tree, ps))
        self.outs[key] = res
        return res

    def holes(self, t):
        if t[0] == "hole":
            p = t[1]
            if p[0] == "d" and p[1][0] == "sym" and p[1][1] == "text":
                yield p[1]
        elif t[0] == "op":
            for k in t[2]:
                yield from self.holes(k)
        elif t[0] == "paren":
            yield from self.holes(t[1])

    # -------------------------------------------------- levels
    def shapes_of(self, s, e):
        """what the expression e can be, as far as a path knows"""
        w, ip = self.w, self.ip
        e = C.value(w, s, e)
        p = w.parts(s, e)
        if p is not None:
            if p[0] == "op":
                return [p[1]]
            if p[0] == "var":
                return ["variable"]
            return self.number_shapes(s, p[1])
        out = []

        def go(s2):
            root = ip.get_field(s2, e, None, w.e_root)
            root = s2.res(root)
            if root[0] == "sym":
                ip.split_enum(s2, root)
            if root[2] == ip.variant_index(w.Node, "Operand"):
                opd = s2.res(root[3][0])
                if opd[0] == "sym":
                    ip.split_enum(s2, opd)
                return [(s2, "leaf")]
            d = s2.res(ip.get_field(s2, root[3][0], None, w.o_desc))
            if d[0] == "sym":
                ip.split_enum(s2, d)
            return [(s2, "op")]
        for s2, _ in ip.with_splits(s.copy(), go):
            q = w.parts(s2, e)
            for x in ([q[1]] if q[0] == "op" else ["variable"] if q[0] == "var" else self.number_shapes(s2, q[1])):
                if x not in out:
                    out.append(x)
        return out

    def number_shapes(self, s, n):
        """which kinds of number n can be on this path"""
        w, ip = self.w, self.ip
        n = C.value(w, s, n)
        for l, mk in self.leafs:
            st = State()
            if C.deep(w, st, mk(st, "cn")) == n:
                return ["number " + l]
        tag, val = w.quiet_field(s, n, w.n_tag), w.quiet_field(s, n, w.n_val)
        t = ip.variants(w.Tag)[tag[2]]["name"] if tag[0] == "adt" else None
        k = ip.variants(w.Val)[val[2]]["name"] if val[0] == "adt" else None
        out = []
        for l, mk in self.leafs:
            st = State()
            m = mk(st, "z")
            if t is not None and ip.variants(w.Tag)[m[3][w.n_tag][2]]["name"] != t:
                continue
            if k is not None and ip.variants(w.Val)[m[3][w.n_val][2]]["name"] != k:
                continue
            if k is not None and l.endswith(("integer", "real")):
                v = s.res(val[3][0])
                if k == "Integer":
                    lo, hi = ip.itv(s, v)
                    if hi < 2 if l == "integer" else lo >= 0:
                        continue
                elif float_nonneg(ip, s, v) if l == "negative real" else float_negative(ip, s, v):
                    continue
            out.append("number " + l)
        return out

    def hole_levels(self, s, t, read=None):
        """levels the text in a hole can have"""
        w, ip = self.w, self.ip
        p = t[1]
        v = p[1]
        if v[0] == "sym" and v[1] == "text":
            e, ctx = v[2]
            if ctx not in self.seen:
                self.fixpoint([ctx])
            out = set()
            for n in self.shapes_of(s, e):
                out |= self.cls.get((ctx, n), set())
            return out
        T = ip.ty_of(v) if v[0] in ("sym", "i", "f") else None
        if T == "f64" or T == "f32":
            return {ATOM} if float_nonneg(ip, s, v) else {SIGNED}
        if T in PRIMS:
            return {ATOM} if ip.itv(s, v)[0] >= 0 else {SIGNED}
        return {ATOM}      # the name of a variable

    def levels(self, s, t):
        if t[0] == "hole":
            return self.hole_levels(s, t)
        if t[0] in ("paren", "num", "const"):
            return {ATOM}
        own = LEVEL[t[1]]
        if t[1] == "Neg":
            return {min(own, l) for l in self.levels(s, t[2][0])}
        if t[1] == "Pow":
            return {min(own, l) for l in self.levels(s, t[2][1])}
        return {own}

    def fixpoint(self, start=(("display",),)):
        """levels of the text of every shape in every context that occurs"""
        todo = list(start)
        seen = self.seen
        while todo:
            ctx = todo.pop()
            if ctx in seen:
                continue
            seen.add(ctx)
            if len(seen) > 200:
                raise Unsupported("too many contexts an expression is printed in")
            if ctx != ("display",):
                for info, k in self.w.adopted.values():
                    self.fns[info["id"]] = info
                for x in ctx[1:]:
                    if not closed(x):
                        raise Unsupported("an expression is printed in a context that is not known: %s" % self.ip.show(x))
            for n in self.names:
                for s, e, kids, tree, ps in self.analyse(ctx, n):
                    if isinstance(tree, str):
                        continue
                    for h in self.holes(tree):
                        todo.append(h[2][1])
        self.ctxs = [c for c in seen]
        changed = True
        while changed:
            changed = False
            for ctx in self.ctxs:
                for n in self.names:
                    for s, e, kids, tree, ps in self.analyse(ctx, n):
                        if isinstance(tree, str):
                            continue
                        new = self.levels(s, tree)
                        old = self.cls.setdefault((ctx, n), set())
                        if not new <= old:
                            old |= new
                            changed = True
        return self

    # -------------------------------------------------- is a text read as what it is the text of
    def misread(self, s, t, req):
        """(operand text, why) of an operand that would be read as something else, or None"""
        if t[0] == "hole":
            bad = [l for l in self.hole_levels(s, t) if l < req]
            if bad:
                return (t, "may be %s, printed without parentheses where at least %s is needed" % (
                    " or ".join(LNAME[l] for l in sorted(bad)), LNAME[req]))
            return None
        if t[0] == "paren":
            return self.misread(s, t[1], SUM)
        if t[0] == "op":
            for i, k in enumerate(t[2]):
                r = NEEDS[t[1]][i]
                if t[1] == "Neg":
                    r = max(r, min(req, SIGNED))
                b = self.misread(s, k, r)
                if b:
                    return b
        return None

    def value(self, a, t):
        w, ip = self.w, self.ip
        if t[0] == "paren":
            return self.value(a, t[1])
        if t[0] == "num":
            return R.c(t[1])
        if t[0] == "const":
            return a.pi() if t[1] == "pi" else a.euler()
        if t[0] == "op":
            return a.op(t[1], [self.value(a, k) for k in t[2]])
        p = t[1]
        v = p[1]
        if p[0] != "d":
            raise Unreadable("%s is printed" % (p,))
        if v[0] == "sym" and v[1] == "text":
            if p[2]:
                raise Unreadable("a text is padded or cut")
            return a.expr(v[2][0])
        T = ip.ty_of(v) if v[0] in ("sym", "i", "f") else None
        if T in ("f64", "f32"):
            return a.flt(v)
        if p[2]:
            raise Unreadable("a text is padded or cut")
        if T in PRIMS:
            return a.int(v)
        return a.atom(("var", a.find(v)))

    def wrong(self, s, e, tree, req=SUM):
        """why the text is not one of e, or None; with the hole that is the reason"""
        if isinstance(tree, str):
            return None, "cannot be read: %s" % tree
        b = self.misread(s, tree, req)
        if b:
            return b[0], "the text of %s %s" % (self.ip.show(b[0][1][1]), b[1])
        a = Alg(self.w, s)
        try:
            want = a.expr(e)
        except Undefined:
            # 1/0 and the like: the same operations have to be there
            return None, None
        try:
            got = self.value(a, tree)
        except Unreadable as x:
            return None, str(x)
        except Undefined:
            return None, "is read as a division by zero"
        if not a.same(got, want):
            return None, "is read as %s instead of %s" % (a.show(got), a.show(want))
        return None, None

    def verify(self, ctx, name, spec=()):
        """report every path on which the text in this context is misread"""
        c, w, ip = self.c, self.w, self.ip
        where = "text of %s" % name
        for s, e, kids, tree, ps in self.analyse(ctx, name, spec):
            hole, bad = self.wrong(s, e, tree)
            if bad and hole is not None:
                # look at the operand's own shapes one by one
                x = hole[1][1]
                if x[0] == "sym" and x[1] == "text":
                    i = [j for j, k in enumerate(kids) if k == x[2][0]]
                    sp = list(spec or [None] * len(kids))
                    if i and sp[i[0]] is None and sum(q is not None for q in sp) < 2:
                        for n in self.names:
                            if n in self.shapes_of(s, kids[i[0]]):
                                sp2 = list(sp)
                                sp2[i[0]] = n
                                self.verify(ctx, name, tuple(sp2))
                        continue
            sample = None
            if ps is not None:
                sample = "%s prints as %s" % (show(w, s, e), show_pieces(w, s, ps))
            c.need(bad is None, "text/%s" % name, where, lambda: "%s prints as %s, which %s" % (
                show(w, s, e), show_pieces(w, s, ps) if ps is not None else "?", bad if bad.startswith(("is read", "cannot")) else "is misread: " + bad), s,
                sample=sample)


def closed(x):
    if isinstance(x, tuple):
        if x and x[0] == "sym":
            return False
        return all(closed(y) for y in x)
    return True


def float_nonneg(ip, s, v):
    """does the path know that the float is not negative"""
    if v[0] == "f":
        return not v[1] >> (63 if v[2] == "f64" else 31)
    T = v[3]
    sg = sym("ftoi", (sym("fsignum", (v,), T),), "i64")
    for t in list(s.rng) + list(s.bind):
        if t[0] == "sym" and t[1] == "ftoi" and t[2] and t[2][0] == sym("fsignum", (v,), T):
            if ip.itv(s, t)[0] >= 0:
                return True
    for t, b in s.bind.items():
        if b[0] != "i":
            continue
        # v < 0 is false, 0 <= v, the sign of v is not negative
        for x in (v, sym("fsignum", (v,), T)):
            z = [y for y in t[2] if isinstance(y, tuple) and y[:1] == ("f",) and y[1] in (0, 1 << 63)] if t[1] in ("flt", "fle", "lt", "le") else []
            if t[1] in ("flt", "lt") and b[1] == 0 and t[2][0] == x and z:
                return True
            if t[1] in ("flt", "fle", "lt", "le") and b[1] == 1 and t[2][1] == x and z and t[2][0] == z[0]:
                return True
        if t[1] == "lt" and b[1] == 0 and t[2][0][0] == "sym" and t[2][0][1] == "ftoi" and t[2][0][2][0] == sym("fsignum", (v,), T) and \
                t[2][1][0] == "i" and t[2][1][1] >= 0:
            return True
        if t[1] == "fneg?" and b[1] == 0 and t[2][0] == v:
            return True
    return False


def float_negative(ip, s, v):
    """does the path know that the float is negative"""
    if v[0] == "f":
        return bool(v[1] >> (63 if v[2] == "f64" else 31))
    T = v[3]
    if ip.itv(s, sym("ftoi", (sym("fsignum", (v,), T),), "i64"))[1] < 0:
        return True
    for z in (0, 1 << 63):
        b = s.bind.get(sym("flt", (v, ("f", z, T)), "bool"))
        if b is not None and b[0] == "i" and b[1] == 1:
            return True
    return False


def texts(c):
    """the classes of texts; the recursion found on the way gets its contract by starting again"""
    w = c.w
    w.optable()
    C.install(w)
    return Texts(c).fixpoint()


def c08(c):
    w, ip = c.w, c.w.ip
    t = texts(c)
    c.counts["contexts"] = len(t.ctxs)
    for ctx in t.ctxs:
        for n in t.names:
            c.guard("text/" + n, "text of " + n, lambda: t.verify(ctx, n))
    c.notes.append("levels of texts by context: " + "; ".join("%s: %s" % (
        ctx[1:] and ", ".join(ip.show(x) for x in ctx[1:]) or ctx[0], " ".join("%s=%s" % (n, "/".join(str(l) for l in sorted(t.cls.get((ctx, n), ()))))
                                                          for n in t.names)) for ctx in t.ctxs))
    # a number by itself: the conventions the text is read with are those the numbers are printed by
    new_ops(c)
    c.floor("texts", t.paths, 60)
