"""The analysed crate: its types, the contracts of its recursive operations, symbolic inputs."""
from .server import Server, BuildError
from .interp import (Interp, State, I, S, TRUE, FALSE, UNIT, Unsupported, NeedSplit, Recursion, sym, PRIMS)

OPS = ["Neg", "Add", "Sub", "Mul", "Div", "Sin", "Cos", "Exp", "Ln", "Pow"]
ARITY = {"Neg": 1, "Add": 2, "Sub": 2, "Mul": 2, "Div": 2, "Sin": 1, "Cos": 1, "Exp": 1, "Ln": 1, "Pow": 2}


class Missing(Exception):
    """something the property is about is not there any more"""


def strip_ref(ip, T):
    while not isinstance(T, str) and ip.kind(T) == "ref":
        T = ip.elem(T)
    return T


class World:
    def __init__(self, repo=None):
        self.srv = Server(repo)
        try:
            self.init()
        except BaseException:
            self.srv.close()
            raise

    def close(self):
        self.srv.close()

    def init(self):
        ip = self.ip = Interp(self.srv)
        t = ip.ty_by_name
        self.E = t("ast::tree::Expression")
        self.Node = t("ast::tree::AstNode")
        self.Opr = t("ast::op::operator::AstOperator")
        self.OpT = t("ast::op::operator::OperatorType")
        self.Opd = t("ast::op::operand::AstOperand")
        self.Var = t("ast::op::operand::Variable")
        self.Num = t("smart_num::SmartNum")
        self.Val = t("smart_num::val_holder::SmartNumVal")
        self.Rat = t("smart_num::rational::RationalNum")
        self.Tag = t("smart_num::special_const::ConstType")
        self.Lim = t("compute::limit::limit_expression::LimitExpression")
        self.Tay = t("compute::taylor_expansion::partial_expansion::PartialExpansion")
        for T, vs in ((self.Node, ["Operator", "Operand"]), (self.Opd, ["Num", "Variable"]), (self.OpT, OPS),
                      (self.Val, ["Integer", "Rational", "Real"]), (self.Tag, ["Zero", "One", "Pi", "E", "Nothing"]),
                      (self.Lim, ["Infinitesimal", "Infinity", "BoundedFluctuation", "Normal"])):
            for v in vs:
                ip.variant_index(T, v)
        f = self.field_of_type
        self.e_root = f(self.E, lambda T: T == self.Node)
        self.e_child = f(self.E, lambda T: ip.is_seq(T))
        self.o_desc = f(self.Opr, lambda T: T == self.OpT)
        self.o_sym = f(self.Opr, lambda T: ip.is_text(strip_ref(ip, T)))
        self.o_prio = f(self.Opr, lambda T: T in PRIMS)
        self.v_name = f(self.Var, lambda T: ip.is_text(strip_ref(ip, T)))
        self.n_val = f(self.Num, lambda T: T == self.Val)
        self.n_tag = f(self.Num, lambda T: T == self.Tag)
        self.r_sign = ip.field_index(self.Rat, "sign")
        self.r_nom = ip.field_index(self.Rat, "nominator")
        self.r_den = ip.field_index(self.Rat, "denominator")
        ip.seq_hook = self.seq_hook
        ip.same_number = self.same_number
        ip.inv_hook = self.inv_hook
        self.adopted = {}
        self.gcds = {}
        self.gcd_used = {}
        self.by_path = {x["path"]: x for x in ip.crate["fns"]}
        self.optable_ = None

    def field_of_type(self, T, p):
        ip = self.ip
        fs = ip.variants(T)[0]["fields"]
        c = [i for i, f in enumerate(fs) if p(ip.canon(f[1]))]
        if len(c) != 1:
            raise Missing("type %s no longer has the expected fields" % ip.tname(T))
        return c[0]

    def type_named(self, name):
        try:
            return self.ip.ty_by_name(name)
        except (Unsupported, KeyError):
            return None

    # ------------------------------------------------------------ functions
    def fn(self, path):
        f = self.by_path.get(path)
        if f is None or "inst" not in f:
            raise Missing("function %s is missing" % path)
        return f["inst"]

    def method(self, trait, method, *tys):
        return self.ip.trait_method(trait, method, *tys)

    def has(self, trait, method, *tys):
        try:
            return self.ip.trait_method(trait, method, *tys)
        except Unsupported:
            return None

    def ref_ty(self, T):
        """index of &T; taken from a type of the program"""
        r = self.srv.q(q="mkref", i=self.ip.idx(T))
        return self.ip.canon(r["i"])

    def is_method(self, info, trait, method):
        return info.get("trait") == trait and info.get("method") == method

    # ------------------------------------------------------------ values
    def expr_in(self, name):
        return sym("in", (name,), self.E)

    def same_number(self, vs, t=None, st=None, cache=None):
        """are these expressions; is the only one of them a number of the value of the term, for all that is known"""
        E = self.E
        if st is None:
            return bool(vs) and all(isinstance(v, tuple) and len(v) > 3 and (v[0] == "adt" and v[1] == E or v[0] == "sym" and v[3] == E) for v in vs)
        from .alg import Alg, Undefined
        try:
            p = self.parts(st, vs[0])
            if p is None or p[0] != "num":
                return False
            a = cache.get(id(st))
            if a is None:
                a = cache[id(st)] = Alg(self, st)
            return a.same(a.expr(vs[0]), a.expr(t))
        except (Unsupported, Missing, Undefined):
            return False

    def op_kind(self, st, op):
        d = st.res(self.ip.get_field(st, op, None, self.o_desc))
        if d[0] == "adt":
            return OPS_NAME(self.ip, d)
        return None

    def optable(self):
        """operator -> (symbol text, priority), as the constructors build them"""
        if self.optable_ is None:
            self.optable_ = {}
            for name, (info, n, mk) in self.constructors().items():
                st = State()
                args = [mk(st, i, self.expr_in("c%d" % i)) for i in range(n)]
                outs = [o for o in self.ip.enter(st, info, args)]
                outs = [(s, o) for s, o in outs if o[0] == "ret"]
                if len(outs) != 1:
                    raise Unsupported("constructor of %s has %d outcomes" % (name, len(outs)))
                s, o = outs[0]
                root = s.res(self.ip.get_field(s, o[1], None, self.e_root))
                if root[0] != "adt" or root[2] != self.ip.variant_index(self.Node, "Operator"):
                    raise Unsupported("constructor of %s does not build an operation" % name)
                op = self.ip.expand(s, root[3][0])
                symb = s.res(op[3][self.o_sym])
                if symb[0] == "ptr":
                    symb = self.ip.load(s, symb)
                prio = s.res(op[3][self.o_prio])
                d = s.res(op[3][self.o_desc])
                if symb[0] != "s" or any(not isinstance(p, str) for p in symb[1]) or prio[0] != "i" or d[0] != "adt":
                    raise Unsupported("operator built for %s is not constant" % name)
                self.optable_[name] = (op, "".join(symb[1]), prio[1], d[2])
        return self.optable_

    def constructors(self):
        """operation -> (function, arity, argument maker) for owned operands"""
        ip, E = self.ip, self.E
        by_val = lambda st, i, v: v
        m = self.method
        c = {}
        for n, tr, me in (("Add", "Add", "add"), ("Sub", "Sub", "sub"), ("Mul", "Mul", "mul"), ("Div", "Div", "div")):
            c[n] = (m("core::ops::arith::" + tr, me, E, E), 2, by_val)
        c["Neg"] = (m("core::ops::arith::Neg", "neg", E), 1, by_val)
        c["Sin"] = (m("math_op::sin::Sin", "sin", E), 1, by_val)
        c["Cos"] = (m("math_op::cos::Cos", "cos", E), 1, by_val)
        c["Exp"] = (m("math_op::exp::Exp", "exp", E), 1, by_val)
        c["Ln"] = (m("math_op::ln::Ln", "ln", E), 1, by_val)
        c["Pow"] = (m("math_op::pow::Pow", "pow", E, E), 2, by_val)
        return c

    def mk_op(self, st, name, kids):
        op = self.optable()[name][0]
        fs = [None, None]
        fs[self.e_root] = self.ip.mk(self.Node, "Operator", (op,))
        fs[self.e_child] = ("arr", tuple(kids))
        return ("adt", self.E, 0, tuple(fs))

    def mk_leaf(self, opd):
        fs = [None, None]
        fs[self.e_root] = self.ip.mk(self.Node, "Operand", (opd,))
        fs[self.e_child] = ("arr", ())
        return ("adt", self.E, 0, tuple(fs))

    def mk_num(self, n):
        return self.mk_leaf(self.ip.mk(self.Opd, "Num", (n,)))

    def mk_varname(self, name):
        fs = [None] * len(self.ip.variants(self.Var)[0]["fields"])
        fs[self.v_name] = name
        if None in fs:
            raise Missing("fields of Variable")
        return ("adt", self.Var, 0, tuple(fs))

    def mk_var(self, name):
        return self.mk_leaf(self.ip.mk(self.Opd, "Variable", (self.mk_varname(name),)))

    def name_sym(self, n):
        return sym("in", (n,), self.ip.fty(self.Var, 0, self.v_name))

    # ------------------------------------------------------------ hooks
    def parts(self, st, e):
        """('num', n) | ('var', name) | ('op', NAME, kids) | None when not known; never splits"""
        ip = self.ip
        e = st.res(e)
        root = self.quiet_field(st, e, self.e_root)
        if root is None or root[0] != "adt":
            return None
        if root[2] == ip.variant_index(self.Node, "Operand"):
            opd = st.res(root[3][0])
            if opd[0] != "adt":
                return None
            x = st.res(opd[3][0])
            if opd[2] == ip.variant_index(self.Opd, "Num"):
                return ("num", x)
            return ("var", self.quiet_field(st, x, self.v_name))
        op = st.res(root[3][0])
        d = self.quiet_field(st, op, self.o_desc)
        if d is None or d[0] != "adt":
            return None
        name = ip.variants(self.OpT)[d[2]]["name"]
        kids = self.quiet_field(st, e, self.e_child)
        if kids[0] == "sym":
            if name not in ARITY:
                raise Unsupported("operation %s is not known to the analysis" % name)
            if kids[1] == "fld" and kids[2][2] == self.e_child and ip.ty_of(kids[2][0]) == self.E:
                kids = tuple(sym("child", (kids[2][0], i), self.E) for i in range(ARITY[name]))
            else:
                return None
        else:
            kids = kids[1]
        return ("op", name, kids)

    def quiet_field(self, st, v, i):
        v = st.res(v)
        if v[0] == "adt":
            return st.res(v[3][i])
        if v[0] == "sym":
            return st.res(self.ip.norm_fld(v, 0, i, v[3]))
        return None

    def seq_hook(self, ip, st, v):
        if v[1] == "fld" and v[2][2] == self.e_child and ip.ty_of(v[2][0]) == self.E:
            e = v[2][0]
            root = st.res(ip.norm_fld(e, 0, self.e_root, self.E))
            if root[0] == "sym":
                ip.split_enum(st, root)
            if root[2] == ip.variant_index(self.Node, "Operand"):
                return ()
            d = st.res(ip.get_field(st, root[3][0], None, self.o_desc))
            if d[0] == "sym":
                ip.split_enum(st, d)
            name = ip.variants(self.OpT)[d[2]]["name"]
            if name not in ARITY:
                raise Unsupported("operation %s is not known to the analysis" % name)
            return tuple(sym("child", (e, i), self.E) for i in range(ARITY[name]))
        return None

    def inv_hook(self, st, fact):
        """consequences of type invariants (C13, C26); False if the case cannot occur"""
        ip = self.ip
        s, v = fact[1], fact[2]
        if s[0] != "sym" or s[1] != "fld":
            return True
        base, var, i = s[2]
        bt = ip.ty_of(base)
        if bt == self.Num and i in (self.n_val, self.n_tag):
            tag = st.res(ip.norm_fld(base, 0, self.n_tag, self.Num))
            val = st.res(ip.norm_fld(base, 0, self.n_val, self.Num))
            if tag[0] == "adt" and val[0] == "adt":
                tn = ip.variants(self.Tag)[tag[2]]["name"]
                vn = ip.variants(self.Val)[val[2]]["name"]
                if tn in ("Pi", "E"):
                    return vn == "Real"
                if tn in ("Zero", "One"):
                    if vn == "Real":
                        return False
                    if vn == "Integer":
                        return ip.assume(st, ("bind", val[3][0], ("i", int(tn == "One"), "i64")))
                    return self.rat_fact(st, val[3][0], tn)
                if tn == "Nothing" and vn == "Integer":
                    return ip.assume(st, ("ne", val[3][0], 0)) and ip.assume(st, ("ne", val[3][0], 1))
                if tn == "Nothing" and vn == "Rational":
                    pass
        if bt == self.Opr and i == self.o_desc and v[0] == "adt" and self.optable_:
            name = ip.variants(self.OpT)[v[2]]["name"]
            op, symb, prio, d = self.optable_[name]
            if not ip.assume(st, ("bind", ip.norm_fld(base, 0, self.o_prio, self.Opr), ("i", prio, ip.fty(self.Opr, 0, self.o_prio)))):
                return False
            sy = ip.norm_fld(base, 0, self.o_sym, self.Opr)
            if st.res(sy)[0] == "sym":
                st.bind[st.res(sy)] = S(symb)
        if bt == self.Rat and i == self.r_sign and False:
            return True
        return True

    def rat_fact(self, st, r, tn):
        ip = self.ip
        r = st.res(r)
        f = lambda i: ip.get_field(st, r, None, i)
        if tn == "Zero":
            return ip.assume(st, ("bind", f(self.r_nom), ("i", 0, "u64"))) and ip.assume(st, ("ne", f(self.r_den), 0))
        a, b = f(self.r_nom), f(self.r_den)
        return ip.assume(st, ("bind", f(self.r_sign), ("i", 1, "i64"))) and ip.assume(st, ("ne", b, 0)) and \
            ip.assume(st, ("true", sym("eq", ip.eqargs(st.res(a), st.res(b)), "bool")))

    def rat_in(self, st, name):
        """any rational an operation can be given: sign +1 or -1"""
        r = sym("in", (name,), self.Rat)
        return r


def OPS_NAME(ip, d):
    return ip.variants(d[1])[d[2]]["name"]
