"""Any round of a loop: the state at the head of a loop after one round is generalised (what went up by one in the
round went up by any number, what became its derivative became some derivative), one more round is followed from
there, and the state it comes back with has to be the one it started from, one round further."""
from .common import *


class NotInductive(Exception):
    pass


def swap(v, m):
    """v with terms replaced"""
    if v in m:
        return m[v]
    if isinstance(v, tuple):
        return tuple(swap(x, m) for x in v)
    return v


def mentions(v, xs):
    if isinstance(v, tuple):
        return v in xs or any(mentions(x, xs) for x in v)
    return False


class Rounds:
    """hook for the heads of loops (interp.round)"""

    def __init__(self, w, kids, var, budget):
        self.w, self.kids, self.var, self.budget = w, kids, var, budget
        self.first = {}       # (frame, head) -> (memory at the first visit, or None when there are several)
        self.gen = {}         # number -> (state, places that changed in the round before)
        self.U = None
        self.made = []        # (head, {kid: generalised kid})
        self.steps = []       # (state, problem or None)
        self.notes = set()

    # -------------------------------------------------------------- memory of a frame
    def memory(self, st, fr):
        return {c: v for c, v in st.cells.items() if isinstance(c, tuple) and c[0] == "l" and c[1] == fr.base}

    def diff(self, s1, s2, a, b, path, out, seen):
        """(where, term before, term after) for what differs"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            a, b = (s1.res(a) if a and a[0] == "sym" else a), (s2.res(b) if b and b[0] == "sym" else b)
        if a == b and not (isinstance(a, tuple) and a and a[0] == "ptr"):
            return
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b:
            raise NotInductive("%s and %s" % (a, b))
        if a[0] == "ptr" and b[0] == "ptr" and a[2] == b[2]:
            if (a[1], b[1]) in seen:
                return
            seen.add((a[1], b[1]))
            if isinstance(b[1], int):
                self.diff(s1, s2, s1.cells.get(a[1]), s2.cells.get(b[1]), ((b[1],),), out, seen)
            elif a[1] != b[1]:
                raise NotInductive("pointers")
            return
        if a[0] == b[0] and len(a) == len(b) and a[0] not in ("sym", "i"):
            for n, (p, q) in enumerate(zip(a, b)):
                if isinstance(p, tuple) and isinstance(q, tuple):
                    self.diff(s1, s2, p, q, path + (n,), out, seen)
                elif p != q:
                    raise NotInductive("%s" % (b[0],))
            return
        if isinstance(a[0], tuple) and isinstance(b[0], tuple) and len(a) == len(b):
            for n, (p, q) in enumerate(zip(a, b)):
                self.diff(s1, s2, p, q, path + (n,), out, seen)
            return
        out.append((path, a, b))

    def compare(self, s1, s2, fr):
        m1, m2 = self.memory(s1, fr), self.memory(s2, fr)
        out, seen = [], set()
        for c in sorted(m2):
            if c in m1:
                self.diff(s1, s2, m1[c], m2[c], ((c,),), out, seen)
        extra = set(m2) - set(m1)
        return out, extra

    def derivative_of(self, st, a, b):
        """is b the derivative of the expression a, as far as the path knows"""
        A = Alg(self.w, st)
        try:
            return A.same(A.expr(b), A.D(A.expr(a), self.var))
        except (Undefined, Unsupported):
            return False

    def is_expr(self, v):
        return len(v) > 3 and v[0] == "sym" and v[3] == self.w.E or v[0] == "adt" and v[1] == self.w.E

    def one_more(self, st, a, b):
        """b = a + 1 or a - 1: the difference, or None"""
        a = st.res(a)
        if a[0] == "i" and b[0] == "i" and a[2] == b[2] and abs(b[1] - a[1]) == 1:
            return b[1] - a[1]
        if b[0] == "sym" and b[1] in ("add", "sub"):
            x, y = b[2]
            if b[1] == "add" and x[0] == "i":
                x, y = y, x
            if st.res(x) == a and y[0] == "i" and y[1] == 1:
                return 1 if b[1] == "add" else -1
            if b[1] == "sub" and a[0] == "sym" and a[1] == "sub" and a[2][0] == x:
                d = self.one_more(st, a[2][1], y)
                return None if d is None else -d
        if b[0] == "sym" and b[1] == "sub" and st.res(b[2][0]) == a and b[2][1][0] == "i" and b[2][1][1] == 1:
            return -1
        return None

    def put(self, st, path, v):
        """store at a place found by diff"""
        c = path[0][0]

        def upd(x, p):
            if not p:
                return v
            x = st.res(x) if x[0] == "sym" else x
            return x[:p[0]] + (upd(x[p[0]], p[1:]),) + x[p[0] + 1:]
        st.cells[c] = upd(st.cells[c], path[1:])

    # -------------------------------------------------------------- the hook
    def __call__(self, fr, st, bb, visits):
        key, n, self.bb = (fr.base, bb), visits[bb], bb
        if bb not in self.w.ip.loop_heads(fr.info):
            return None
        if n == 1:
            # several paths that come here first are several starts: the one before is known by its memory
            self.first.setdefault(key, []).append(st.copy())
            return None
        if n == 2:
            if any(t[0] == "round" for t in st.trace):
                return None
            for s1 in self.first.get(key, ()):
                if s1.trace != st.trace[:len(s1.trace)] or s1.facts != st.facts[:len(s1.facts)]:
                    continue
                try:
                    g = self.generalise(s1, st, fr)
                except NotInductive as x:
                    self.notes.add("%s: not followed for every round (%s)" % (fr.info["path"], x))
                    continue
                if g is not None:
                    return [("go", g, bb, -1, visits)]
            return None
        here = [t for t in st.trace if t[0] == "round" and t[1] == key]
        if not here:
            return None
        k = here[-1][2]
        problem = self.back(self.gen[k], st, fr)
        if problem and n == 3:
            return None         # it leaves the loop, or goes another way
        self.steps.append((st, problem, k))
        return []

    def generalise(self, s1, s2, fr):
        out, extra = self.compare(s1, s2, fr)
        exprs = [(p, a, b) for p, a, b in out if self.is_expr(b)]
        if not exprs:
            return None
        g = s2.copy()
        for c in extra:
            del g.cells[c]      # written in the loop only: dead at its head
        T = self.budget[3]
        U = sym("in", ("rounds",), T)
        new, places = {}, set()
        for p, a, b in out:
            places.add(p)
            if self.is_expr(b):
                i = next((i for i, k in enumerate(self.kids) if s1.res(k) == s1.res(a)), None)
                if i is None or not self.derivative_of(s2, a, b):
                    raise NotInductive("not a derivative")
                new[i] = sym("in", ("r%d" % i,), self.w.E)
                self.put(g, p, new[i])
                continue
            d = self.one_more(s2, a, b)
            if d == 1:
                t = U if a[0] == "i" and a[1] == 0 else sym("add", (U, a), a[2] if a[0] == "i" else a[3])
            elif d == -1 and a[0] == "sym":
                t = sym("sub", (a, U), a[3])
            else:
                raise NotInductive("a value that goes another way")
            if (t[3] if t[0] == "sym" else None) != T:
                raise NotInductive("a counter of another type")
            self.put(g, p, t)
        old = set(self.kids[i] for i in new)
        keep = lambda t: not mentions(t, old)
        # what was known of the former operands is forgotten
        g.bind = {t: v for t, v in g.bind.items() if keep(t)}
        g.rng = {t: v for t, v in g.rng.items() if keep(t)}
        g.ne = {t: v for t, v in g.ne.items() if keep(t)}
        g.facts = tuple(f for f in g.facts if keep(f))
        g.rng[U] = (1, PRIMS[T][1] - 1)
        key = len(self.gen)
        g.trace = tuple(t for t in g.trace if t[0] != "limit") + (("round", (fr.base, self.bb), key),)
        m = {self.kids[i]: v for i, v in new.items()}
        self.gen[key] = (g.copy(), places)
        self.made.append((key, m))
        return g

    def back(self, g, st, fr):
        """the state after one more round: None when it is the generalised one, one round further"""
        g, places = g
        try:
            out, extra = self.compare(g, st, fr)
            if places - {p for p, a, b in out}:
                raise NotInductive("a value that stays")
            for p, a, b in out:
                if self.is_expr(b):
                    if not self.derivative_of(st, a, b):
                        raise NotInductive("not a derivative")
                elif self.one_more(st, a, b) is None:
                    raise NotInductive("a value that goes another way")
        except NotInductive as x:
            return str(x)
        return None
