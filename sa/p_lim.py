"""C18-C22: limit values and the limit rules."""
import itertools
from .common import *
from .p_expr import call_args, wrap, new_ops
from .p_build import BIN, UN
from .rounds import Rounds, swap

KINDS = ["Infinitesimal", "Infinity", "BoundedFluctuation", "Normal"]
Z, F, B, N = KINDS

# What the limit theorems force.  A name is the kind, "val" an ordinary value made of the operands' by
# the operation, None that no value may be given, a set what else a value has to be if one is given.
NEG = {Z: {Z}, F: {F}, B: {B}, N: {"val"}}
ADD = {(Z, Z): {Z}, (Z, F): {F}, (Z, B): {B}, (Z, N): {"val"}, (F, F): None, (F, B): {F}, (F, N): {F}, (B, B): {B, "err"},
       (B, N): {B, "err"}, (N, N): {"val"}}
MUL = {(Z, Z): {Z}, (Z, F): None, (Z, B): {Z}, (Z, N): {Z}, (F, F): {F}, (F, B): None, (F, N): {F}, (B, B): {B, "err"},
       (B, N): {B}, (N, N): {"val"}}
DIV = {(Z, Z): None, (Z, F): {Z}, (Z, B): None, (Z, N): {Z}, (F, Z): {F}, (F, F): None, (F, B): {F, "err"}, (F, N): {F},
       (B, Z): None, (B, F): {Z}, (B, B): None, (B, N): {B}, (N, Z): {F}, (N, F): {Z}, (N, B): None, (N, N): {"val"}}
# two fluctuating operands, or one beside an ordinary value, are not determinate: nothing is required there
FREE = {(B, B), (B, N), (N, B), (B, Z), (Z, B), (B, F), (F, B)}


def forced(op, ks):
    if op == "Neg":
        return NEG[ks[0]]
    if op in ("Add", "Sub"):
        return ADD[ks] if ks in ADD else ADD[(ks[1], ks[0])]
    if op == "Mul":
        return MUL[ks] if ks in MUL else MUL[(ks[1], ks[0])]
    return DIV[ks]


def kind(w, s, v):
    """kind of a limit value, or None"""
    v = s.res(v)
    return w.ip.variants(w.Lim)[v[2]]["name"] if v[0] == "adt" else None


def limval(w, s, a, k, pay):
    """a number standing for what an ordinary or infinitesimal limit is"""
    return ZERO if k == Z else a.expr(pay)


def zero_number(w, s, e):
    """the path takes e for the number 0"""
    p = w.parts(s, e)
    if p is None or p[0] != "num":
        return False
    t = w.quiet_field(s, p[1], w.n_tag)
    return t[0] == "adt" and w.ip.variants(w.Tag)[t[2]]["name"] == "Zero"


# ------------------------------------------------------------------ C18
def c18(c):
    setup(c)
    w, ip = c.w, c.w.ip
    table = {}
    paths = 0
    for op in ("Add", "Sub", "Mul", "Div", "Neg"):
        tr, m = (BIN.get(op) or UN.get(op))
        n = 1 if op == "Neg" else 2
        info = w.method(tr, m, *([w.Lim] * n))
        where, span = info["path"], c.span(info)
        for ks in itertools.product(KINDS, repeat=n):
            label = "%s/%s" % (op, ",".join(ks))

            def one():
                nonlocal paths
                st = State()
                pays = [w.expr_in("a%d" % i) for i in range(n)]
                args = [w.ip.mk(w.Lim, k, (p,) if k == N else ()) for k, p in zip(ks, pays)]
                want = forced(op, ks)
                some = False
                for s, v in rets(c, label, where, ip.enter(st, info, args), span):
                    if any(k == N and zero_number(w, s, p) for k, p in zip(ks, pays)):
                        continue      # an ordinary value is not the number zero: C20
                    paths += 1
                    some = True
                    r = opt(w, v) if ip.adt(ip.ty_of(v)) == "core::result::Result" else v
                    if r is None:
                        c.need(want is None or "err" in want or ks in FREE, label, where,
                               "%s gives no value although the limit theorems force one" % label, s, span, sample="%s is an error" % label)
                        table.setdefault((op, ks), set()).add("err")
                        continue
                    k = kind(w, s, r)
                    table.setdefault((op, ks), set()).add(k)
                    if want is None:
                        c.fail(label, where, "%s is indeterminate and gives %s" % (label, k), s, span)
                        continue
                    if k != N and "val" not in want:
                        c.need(k in want, label, where, "%s gives %s" % (label, k), s, span, sample="%s is %s" % (label, k))
                        continue
                    a = Alg(w, s)
                    try:
                        val = a.op(op, [limval(w, s, a, x, p) for x, p in zip(ks, pays)]) if "val" in want else None
                    except Undefined:
                        val = None
                    if k == Z:
                        ok = val is not None and a.is0(val)
                    else:
                        ok = k == N and val is not None and a.same(a.expr(s.res(r)[3][0]), val)
                    c.need(ok, label, where, lambda: "%s gives %s" % (label, show(w, s, r)), s, span,
                           sample="%s is %s" % (label, show(w, s, r)))
                c.need(some, label + "/none", where, "%s has no result" % label)
            c.guard(label, where, one)
    # the number zero as an ordinary value (elsewhere it is none, C20)
    info = w.method(*BIN["Div"], w.Lim, w.Lim)
    where, span = info["path"], c.span(info)
    for ks in ((Z, N), (B, N), (N, Z)):
        label = "Div/%s/zero" % ",".join(ks)

        def zero():
            st = State()
            n = sym("in", ("zero",), w.Num)
            st.bind[ip.norm_fld(n, 0, w.n_tag, w.Num)] = ip.mk(w.Tag, "Zero")
            for s, v in rets(c, label, where, ip.enter(st, info, [ip.mk(w.Lim, k, (w.mk_num(n),) if k == N else ()) for k in ks]), span):
                c.need(opt(w, v) is None, label, where, lambda: "%s with the number zero as ordinary value gives %s" % (label, show(w, s, v)),
                       s, span, sample="%s with the number zero is an error" % label)
        c.guard(label, where, zero)
    for op in ("Add", "Mul"):
        for x, y in itertools.combinations(KINDS, 2):
            p, q = table.get((op, (x, y))), table.get((op, (y, x)))
            c.need(p == q, "%s/order" % op, op, "%s of %s and %s is %s, the other way round %s" % (op, x, y, p, q),
                   sample="%s of %s and %s: %s either way" % (op, x, y, p))
    c.floor("combinations of limit values", len(table), 4 * 16 + 4)


# ------------------------------------------------------------------ the limit function
def lim_calls(w, s, root_t=None):
    """the limits taken on a path: (expression, name, point, budget, result or None, value or None)
    result is "ok" / "err" / None when the path does not look at it"""
    out = []
    for t in s.trace:
        if t[0] != "limit":
            continue
        e, name, to, k = t[1:5]
        st = None
        val = None
        for key in list(s.bind):
            if key[1] == "limit" and key[2] == (e, name, to, k):
                r = s.res(key)
                if r[0] == "adt" and w.ip.adt(r[1]) == "core::result::Result":
                    st = "ok" if w.ip.variants(r[1])[r[2]]["name"] == "Ok" else "err"
                    val = s.res(r[3][0]) if st == "ok" else None
                elif r[0] == "adt":
                    st, val = "ok", r
        out.append((e, name, to, k, st, val))
    return out


def feasible(w, s, K):
    """kinds of the limits taken are possible ones, and an ordinary one is not the number zero"""
    for key in list(s.bind):
        if key[3] == w.Lim:
            v = s.res(key)
            if v[0] == "adt":
                k = kind(w, s, v)
                if from_limit(key) and (k not in K or k == N and zero_number(w, s, v[3][0])):
                    return False
    return True


def from_limit(t):
    while t[0] == "sym" and t[1] == "fld":
        t = t[2][0]
    return t[0] == "sym" and t[1] == "limit"


# budgets of retries looked at; None is any larger one
SMALL = 3
BUDGETS = {"quick": (0, 1, 2, 5, None), "thorough": (0, 1, 2, 3, 4, 8, None)}


def analyse(c, orders, shapes_=None):
    """every path of the limit function for each shape and budget, with the limits of operands of possible
    kinds only: [(shape, expression, operands, budget, info, outcomes)].  The budget None stands for any budget
    above the small ones; there the paths that take more than a few rounds of a loop are left out."""
    w = c.w
    x, to = w.name_sym("x"), w.expr_in("to")
    small = [n for n in orders if n is None or n <= SMALL]
    res = explore(c, small, x, to, shapes_, min(n for n in small if n is not None and n + 1 not in small) + 1)
    K = kinds_of(w, res, set())
    more = [n for n in orders if n not in small]
    if more:
        # for the others, only paths on which the limits taken are of the kinds found so far
        w.ip.prune = lambda s: not feasible(w, s, K)
        try:
            big = explore(c, more, x, to, shapes_, None)
        finally:
            w.ip.prune = None
        if not kinds_of(w, big, K) <= K:
            big = explore(c, more, x, to, shapes_, None)
        res += big
        K = kinds_of(w, res, K)
    every, steps = every_round(c, x, to, shapes_, K)
    res += every
    c.rounds = steps
    c.counts["kinds of limits that occur: " + " ".join(sorted(K))] = len(K)
    out = []
    for name, e, kids, k, info, outs in res:
        out.append((name, e, kids, k, info, [(s, o) for s, o in outs if feasible(w, s, K)]))
    return out, x, to


def every_round(c, x, to, shapes_, K):
    """one round of the loops of the rules, any number of rounds after they began: (entries as of explore about the
    expressions at that round, states in which the next round begins)"""
    w, ip = c.w, c.w.ip
    res, steps, followed = [], [], 0
    for info in C.roots(w, "limit"):
        T = [t for t in C.base_args(w, info) if t in PRIMS]
        for name, mk in shapes(w):
            if shapes_ and name not in shapes_ or not T:
                continue

            def one():
                nonlocal followed
                st = State()
                e, kids = mk(st)
                k = sym("in", ("budget",), T[0])
                st.rng[k] = (1, PRIMS[T[0]][1])
                h = Rounds(w, kids, x, k)
                ip.round, ip.prune = h, lambda s: not feasible(w, s, K)
                # a loop written as a recursion has no round to start from
                old, ip.depth_limit = ip.depth_limit, 4
                try:
                    outs = ip.enter(st, info, call_args(w, st, info, [e, to], x, [k]))
                except (Unsupported, Missing) as u:
                    c.notes.append("%s: not followed for every round (%s)" % (info["path"], u))
                    return
                finally:
                    ip.round = ip.prune = None
                    ip.depth_limit = old
                c.notes.extend(sorted(h.notes))
                for key, m in h.made:
                    other = sorted({b for _, b, q in h.steps if q == key and b})
                    if other:
                        # paths that do something else in some round are followed for one round more
                        c.notes.append("%s: not followed for every round (%s)" % (info["path"], other))
                    followed += not other
                    mine = [(s, o) for s, o in outs if o[0] == "ret" and any(t[0] == "round" and t[2] == key for t in s.trace)]
                    e2, kids2 = swap(e, m), [m.get(q, q) for q in kids]
                    res.append((name, e2, kids2, k, info, mine))
                    steps.extend((name, e2, kids2, info, s) for s, b, q in h.steps if q == key and feasible(w, s, K))
            c.guard("limit/%s/every round" % name, info["path"], one)
    c.counts["loops of limit rules followed for every round"] = followed
    return res, steps


def explore(c, orders, x, to, shapes_, above):
    w, ip = c.w, c.w.ip
    res = []
    for info in C.roots(w, "limit"):
        for name, mk in shapes(w):
            if shapes_ and name not in shapes_:
                continue
            for n in orders:
                def one():
                    st = State()
                    e, kids = mk(st)
                    T = [t for t in C.base_args(w, info) if t in PRIMS]
                    if n is None and not T:
                        return
                    k = I(n, T[0]) if n is not None else sym("in", ("budget",), T[0])
                    old = ip.loop_limit
                    if n is None:
                        st.rng[k] = (above, PRIMS[T[0]][1])
                        ip.loop_limit = 2 if c.tier == "quick" else 3
                    try:
                        outs = ip.enter(st, info, call_args(w, st, info, [e, to], x, [k] if T else []))
                    finally:
                        ip.loop_limit = old
                    if n is None:
                        outs = [q for q in outs if q[1][0] != "cut"]
                    res.append((name, e, kids, k, info, outs))
                c.guard("limit/%s/%s" % (name, n), info["path"], one)
    return res


def kinds_of(w, res, K):
    """kinds of limits that come out where those taken are of these kinds, and so on"""
    ip = w.ip
    K = set(K)
    while True:
        new = set()
        for name, e, kids, k, info, outs in res:
            for s, o in outs:
                if o[0] == "ret" and feasible(w, s, K):
                    v = s.res(o[1])
                    if v[0] == "adt" and ip.adt(v[1]) == "core::result::Result":
                        if ip.variants(v[1])[v[2]]["name"] != "Ok":
                            continue
                        v = s.res(v[3][0])
                    kd = kind(w, s, v)
                    if kd is not None:
                        new.add(kd)
        if new <= K:
            return K
        K |= new


def result_of(w, s, v):
    """("err",) | ("is", term) a limit taken on the path | ("lim", kind, payload)"""
    ip = w.ip
    v = s.res(v)
    if v[0] == "sym" and v[1] == "limit":
        return ("is", v)
    if v[0] == "adt" and ip.adt(v[1]) == "core::result::Result":
        if ip.variants(v[1])[v[2]]["name"] != "Ok":
            return ("err",)
        v = s.res(v[3][0])
    if v[0] == "sym":
        return ("is", v)
    return ("lim", kind(w, s, v), s.res(v[3][0]) if v[3] else None)


def base_of(t):
    while t[0] == "sym" and t[1] == "fld":
        t = t[2][0]
    return t


def matches(w, s, r, kind_, pay, a):
    """does the result r report the limit (kind_, pay), up to aggregating its numbers"""
    if r[0] != "lim" or kind_ is None:
        return False
    if kind_ == N:
        val = a.expr(pay)
        if r[1] == Z:
            return a.known0(val)
        return r[1] == N and a.same(a.expr(r[2]), val)
    return r[1] == kind_


def combos(w, s, a, kids, calls, var, to):
    """limits of the operands found on the path: tuples (sign, kind, payload)"""
    return combos_v(w, s, a, [a.expr(k) for k in kids], calls, var, to)


def combined(w, s, a, op, combo):
    """what the operands' limits force: set of kinds, and the value"""
    ks = tuple(k for _, k, _ in combo)
    want = forced(op, ks)
    if want is None:
        return None, None
    val = None
    if "val" in want:
        xs = []
        for sg, k, pay in combo:
            v = limval(w, s, a, k, pay)
            xs.append(v if sg > 0 else -v)
        val = a.op(op, xs)
    return want, val


def fits(w, s, r, want, val, a):
    if want is None or r[0] != "lim":
        return False
    if val is not None:
        if r[1] == Z:
            return a.known0(val)
        return r[1] == N and a.same(a.expr(r[2]), val)
    return r[1] in want


def justify(w, s, name, e, kids, r, calls, var, to):
    """why the result r of the limit of e is right, or None"""
    a = Alg(w, s)
    ev = a.expr(e)
    # another expression of the same value
    for e2, nm, t, b, st, val in calls:
        if a.same_name(nm, var) is not True or not same_expr(w, s, t, to):
            continue
        try:
            u = a.expr(e2)
        except Undefined:
            continue
        same, opp = a.same(u, ev), a.same(u, -ev)
        if r[0] == "is":
            if same and base_of(r[1])[2] == (e2, nm, t, b):
                return "limit of %s" % w.ip.show(e2)
            continue
        if st != "ok":
            continue
        if same and val[0] == "sym" and r[0] == "lim":
            continue
        kd = kind(w, s, val)
        pay = s.res(val)[3][0] if kd == N else None
        if same and matches(w, s, r, kd, pay, a):
            return "limit of %s" % w.ip.show(e2)
        if opp and kd is not None and fits(w, s, r, *combined(w, s, a, "Neg", ((1, kd, pay),)), a):
            return "minus the limit of %s" % w.ip.show(e2)
    if name in ("Add", "Sub", "Mul", "Div", "Neg"):
        for combo in combos(w, s, a, kids, calls, var, to):
            if fits(w, s, r, *combined(w, s, a, name, combo), a):
                return "limits of the operands"
    if name == "Div":
        vs = [a.expr(k) for k in kids]
        for depth in range(1, len(calls) + 1):
            # the pair before has to be indeterminate in a way the rule is for
            if not any(tuple(k for _, k, _ in co) in ((Z, Z), (F, F)) for co in combos_v(w, s, a, vs, calls, var, to)):
                break
            vs = [a.D(v, var) for v in vs]
            for combo in combos_v(w, s, a, vs, calls, var, to):
                if fits(w, s, r, *combined(w, s, a, "Div", combo), a):
                    return "limits of the derivatives of order %d" % depth
    return None


def combos_v(w, s, a, vals, calls, var, to):
    if getattr(a, "_calls", None) is None:
        # the limits taken, with the value of their expression
        a._calls = []
        for e, name, t, b, st, val in calls:
            if st != "ok" or a.same_name(name, var) is not True or not same_expr(w, s, t, to):
                continue
            kd = kind(w, s, val)
            if kd is not None:
                a._calls.append((a.expr(e), kd, s.res(val)[3][0] if kd == N else None))
    def found(v, exact):
        out = []
        for u, kd, pay in a._calls:
            if u.n == v.n and u.d == v.d if exact else a.same(u, v):
                out.append((1, kd, pay))
            elif not exact and a.same(u, -v):
                out.append((-1, kd, pay))
        return out

    # those that are written alike first
    per = [found(v, True) for v in vals]
    yield from itertools.product(*per)
    per2 = [found(v, False) for v in vals]
    if per2 != per:
        yield from itertools.product(*per2)


LEAVES = ("number", "variable")


def later_round(s):
    return any(t[0] == "round" for t in s.trace)


def c19(c):
    setup(c)
    w, ip = c.w, c.w.ip
    res, x, to = analyse(c, BUDGETS[c.tier])
    n = 0
    for name, e, kids, k, info, outs in res:
        if name in LEAVES:
            continue
        where, span = info["path"], c.span(info)
        label = "limit/%s" % name

        def one():
            nonlocal n
            for s, v in rets(c, label, where, outs, span):
                n += 1
                r = result_of(w, s, v)
                calls = lim_calls(w, s)
                if r[0] == "err":
                    if name not in ("Neg", "Add", "Sub", "Mul", "Div"):
                        c.ok(where)
                        continue
                    if not calls and later_round(s):
                        c.ok(where)       # the round before was indeterminate
                        continue
                    a = Alg(w, s)
                    ok = any(st == "err" for *_, st, val in calls) or any(
                        combined(w, s, a, name, co)[0] is None or tuple(q[1] for q in co) in FREE
                        for co in combos(w, s, a, kids, calls, x, to))
                    c.need(ok, label + "/error", where, lambda: "the limit of %s is an error although the limits of the operands determine it (%s)" % (
                        name, [ip.show(q[0]) for q in calls]), s, span, sample="%s with budget %s: error, when %s" % (name, ip.show(k), ip.show_facts(s)))
                    continue
                if name in ("Sin", "Cos"):
                    continue          # C21
                why = justify(w, s, name, e, kids, r, calls, x, to)
                c.need(why is not None, label + "/value", where, lambda: "the limit of %s is given as %s, which does not follow from the limits taken (%s)" % (
                    name, show(w, s, v), "; ".join(ip.show(q[0]) for q in calls)), s, span,
                    sample="%s with budget %s: %s, from the %s" % (name, ip.show(k), show(w, s, v), why))
        c.guard(label, where, one)
    for name, e, kids, info, s in c.rounds:
        label = "limit/%s/step" % name

        def step():
            nonlocal n
            n += 1
            a = Alg(w, s)
            calls = lim_calls(w, s)
            ok = any(tuple(k for _, k, _ in co) in ((Z, Z), (F, F)) for co in combos(w, s, a, kids, calls, x, to))
            c.need(ok, label, info["path"], lambda: "derivatives are taken although the limits of the operands are not of an indeterminate form (%s)" % (
                "; ".join(ip.show(q[0]) for q in calls)), s, c.span(info), sample="another round of %s when %s" % (name, ip.show_facts(s)))
        c.guard(label, info["path"], step)
    new_ops(c)
    c.floor("paths of the limit rules", n, 60)


# ------------------------------------------------------------------ C20
def maybe_zero(w, s, X):
    """can the reported ordinary value be the number zero"""
    X = s.res(X)
    p = w.parts(s, X)
    if p is None:
        if from_limit(X):
            return False
        root = w.quiet_field(s, X, w.e_root)
        if root is None or root[0] != "adt":
            return True
        if root[2] == w.ip.variant_index(w.Node, "Operator"):
            return False
        q = s.res(root[3][0])
        return q[0] != "adt" or q[2] != w.ip.variant_index(w.Opd, "Variable")
    if p[0] != "num":
        return False
    t = w.quiet_field(s, p[1], w.n_tag)
    if t[0] == "adt":
        return w.ip.variants(w.Tag)[t[2]]["name"] == "Zero"
    return t_not_zero(w, s, t)


def t_not_zero(w, s, t):
    z = w.ip.variant_index(w.Tag, "Zero")
    for f in s.ne.get(t, ()):
        if f == z:
            return False
    return True


def c20(c):
    setup(c)
    w, ip = c.w, c.w.ip
    res, x, to = analyse(c, BUDGETS[c.tier])
    n = 0
    for name, e, kids, k, info, outs in res:
        where, span = info["path"], c.span(info)
        label = "limit/%s" % name

        def one():
            nonlocal n
            for s, v in rets(c, label, where, outs, span):
                r = result_of(w, s, v)
                if name in LEAVES:
                    n += 1
                    if r[0] != "lim":
                        c.fail(label, where, "the limit of a %s is %s" % (name, show(w, s, v)), s, span)
                        continue
                    a = Alg(w, s)
                    if name == "number":
                        want = a.expr(e)
                    else:
                        same = a.same_name(w.name_sym("cname"), x)
                        if same is None:
                            c.fail(label, where, "the names of the variables are not compared", s, span)
                            continue
                        want = a.expr(to if same else e)
                    ok = a.known0(want) if r[1] == Z else r[1] == N and a.same(a.expr(r[2]), want)
                    c.need(ok, label, where, lambda: "the limit of a %s is given as %s, not %s" % (name, show(w, s, v), a.show(want)), s, span,
                           sample="%s: %s when %s" % (name, show(w, s, v), ip.show_facts(s)))
                if r[0] == "lim" and r[1] == N:
                    n += 1
                    c.need(not maybe_zero(w, s, r[2]), label + "/zero", where,
                           lambda: "an ordinary limit %s can be the number zero" % show(w, s, r[2]), s, span,
                           sample="%s: %s is not zero when %s" % (name, show(w, s, r[2]), ip.show_facts(s)))
        c.guard(label, where, one)
    new_ops(c)
    c.floor("limits of leaves and ordinary limits", n, 20)


# ------------------------------------------------------------------ C21
def c21(c):
    setup(c)
    w, ip = c.w, c.w.ip
    res, x, to = analyse(c, BUDGETS[c.tier])
    n = 0
    for name, e, kids, k, info, outs in res:
        if name not in ("Sin", "Cos"):
            continue
        where, span = info["path"], c.span(info)

        def one():
            nonlocal n
            for s, v in rets(c, name, where, outs, span):
                r = result_of(w, s, v)
                n += 1
                if r[0] == "err":
                    c.ok(where)
                    continue
                a = Alg(w, s)
                calls = lim_calls(w, s)
                ops = list(combos(w, s, a, kids, calls, x, to))
                if r[0] == "is":
                    why = justify(w, s, name, e, kids, r, calls, x, to)
                    c.need(why is not None, name + "/value", where, "the limit of %s is that of another expression" % name, s, span)
                    continue
                u = a.S(a.expr(kids[0]), x, a.expr(to))
                ok, finite = False, False
                if r[1] == B and any(co[0][1] == F for co in ops):
                    c.ok(where)
                    continue
                cands = [u]
                for co in ops:
                    sg, kd, pay = co[0]
                    if kd in (Z, N):
                        finite = True
                        val = limval(w, s, a, kd, pay)
                        cands.append(val if sg > 0 else -val)
                for val in cands:
                    want = a.op(name, [val])
                    if r[1] == Z and a.known0(want) or r[1] == N and a.same(a.expr(r[2]), want):
                        ok = True
                c.need(ok, name + "/value", where, lambda: "the limit of %s(u) is given as %s, not as %s at the limit of u" % (name, show(w, s, v), name),
                       s, span, sample="%s: %s when %s" % (name, show(w, s, v), ip.show_facts(s)))
                if r[1] == N:
                    c.need(not maybe_zero(w, s, r[2]), name + "/zero", where, lambda: "a zero %s is reported as the ordinary value %s" % (name, show(w, s, r[2])), s, span)
                c.need(finite, name + "/no-finite-limit", where,
                       "a value is reported for the limit of %s(u) without u having been found to have a finite limit" % name, s, span)
        c.guard(name, where, one)
    c.floor("paths of the sine and cosine rules", n, 4)


# ------------------------------------------------------------------ C22
def size_of(w, s, e, kids):
    """(operations, how often each operand occurs, leaves) of an expression over the operands, or None"""
    e = C.value(w, s, e)
    if e in kids:
        return {}, {e: 1}, 0
    p = w.parts(s, e)
    if p is None:
        return None
    if p[0] != "op":
        return {}, {}, 1
    ops, occ, lv = {p[1]: 1}, {}, 0
    for k in p[2]:
        x = size_of(w, s, k, kids)
        if x is None:
            return None
        for d, y in ((ops, x[0]), (occ, x[1])):
            for q, m in y.items():
                d[q] = d.get(q, 0) + m
        lv += x[2]
    return ops, occ, lv


def c22(c):
    setup(c)
    w, ip = c.w, c.w.ip
    orders = BUDGETS[c.tier]
    ineqs = []      # (shape, operations of the other expression, leaves, where, state, span, text)
    n = 0
    x, to = w.name_sym("x"), w.expr_in("to")
    # for the larger budgets, only paths on which the limits taken are of kinds that occur
    K = kinds_of(w, explore(c, (0, 1, None), x, to, None, 2), set())

    def smaller(name, kids, k, where, span, states):
        nonlocal n
        done = set()
        for s in states:
            for t in s.trace:
                if t[0] != "limit" or (t[1], t[4]) in done:
                    continue
                done.add((t[1], t[4]))
                n += 1
                e2, k2 = t[1], t[4]
                rel = budget(ip, s, k, k2)
                z = size_of(w, s, e2, kids)
                text = "%s with budget %s takes the limit of %s with budget %s" % (name, ip.show(k), ip.show(e2), ip.show(k2))
                if rel == "less":
                    c.ok(where, sample=text)
                elif rel == "same" and z is not None and all(m <= 1 for m in z[1].values()):
                    ineqs.append((name, z[0], z[2], where, s, span, text))
                else:
                    c.fail("limit/%s/budget" % name, where, "%s: neither a smaller budget nor a smaller expression" % text, s, span)

    for info in C.roots(w, "limit"):
        where, span = info["path"], c.span(info)
        T = [t for t in C.base_args(w, info) if t in PRIMS]
        if not T:
            c.fail("limit/no-budget", where, "takes limits without a budget", None, span)
            continue
        for name, mk in shapes(w):
            for order in orders:
                def one():
                    nonlocal n
                    st = State()
                    e, kids = mk(st)
                    k = I(order, T[0]) if order is not None else sym("in", ("budget",), T[0])
                    old = ip.loop_limit
                    ip.loop_limit = old if order is not None else 3
                    if order is not None and order > SMALL:
                        ip.prune = lambda s: not feasible(w, s, K)
                    try:
                        outs = ip.enter(st, info, call_args(w, st, info, [e, to], x, [k]))
                    finally:
                        ip.loop_limit = old
                        ip.prune = None
                    if order is not None and any(o[0] == "cut" for s, o in outs):
                        s = next(s for s, o in outs if o[0] == "cut")
                        c.fail("limit/%s/loop" % name, where, "a loop in the limit of %s was not seen to end" % name, s, span)
                    smaller(name, kids, k, where, span, [s for s, o in outs])
                c.guard("limit/" + name, where, one)
    every, steps = every_round(c, x, to, None, K)
    for name, e, kids, k, info, outs in every:
        # (operands of a later round are no smaller expressions: the budget has to be smaller)
        smaller(name, (), k, info["path"], c.span(info), [s for s, o in outs])
    for name, e, kids, info, s in steps:
        k = sym("in", ("budget",), next(t for t in C.base_args(w, info) if t in PRIMS))
        smaller(name, (), k, info["path"], c.span(info), [s])
        c.need(counted(s), "limit/%s/loop" % name, info["path"], "rounds of the limit of %s go on without a count" % name, s, c.span(info))
    ops = sorted({i[0] for i in ineqs} | {o for i in ineqs for o in i[1]})
    best = None
    for ws in itertools.product((1, 2, 3, 4), repeat=len(ops)):
        wt = dict(zip(ops, ws))
        bad = [i for i in ineqs if not wt[i[0]] > sum(wt[o] * m for o, m in i[1].items()) + i[2]]
        if best is None or len(bad) < len(best[1]):
            best = (wt, bad)
            if not bad:
                break
    if best is not None:
        wt, bad = best
        c.notes.append("measure that gets smaller: %s" % wt)
        for i in ineqs:
            if i in bad:
                c.fail("limit/%s/size" % i[0], i[3], "%s: no measure of expressions gets smaller" % i[6], i[4], i[5])
            else:
                c.ok(i[3], sample=i[6])
    new_ops(c)
    c.floor("recursive calls of the limit function", n, 20)


def counted(s):
    """does what the path knows speak of the number of rounds"""
    U = lambda v: isinstance(v, tuple) and (v[:3] == ("sym", "in", ("rounds",)) or any(U(x) for x in v))
    return any(U(f) for f in s.facts) or any(U(t) for t in s.bind) or any(U(t) for t in s.ne)


def budget(ip, s, k, k2):
    k, k2 = s.res(k), s.res(k2)
    if k == k2:
        return "same"
    if k[0] == "i" and k2[0] == "i":
        return "less" if 0 <= k2[1] < k[1] else "more"
    # k less (or more) constants, exactly: sub and add do not wrap around
    t, lo, hi = k2, 0, 0
    while t != k and t[0] == "sym" and t[1] in ("sub", "add"):
        x, y = s.res(t[2][0]), s.res(t[2][1])
        if t[1] == "add" and x[0] == "i":
            x, y = y, x
        l, h = ip.itv(s, y)
        lo, hi = (lo + l, hi + h) if t[1] == "sub" else (lo - h, hi - l)
        t = x
    if t == k:
        if lo >= 1:
            return "less"
        if lo == 0 == hi:
            return "same"
    if k2[0] == "i" and ip.itv(s, k)[0] > k2[1]:
        return "less"
    return "more"
