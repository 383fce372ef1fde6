"""The checks: property -> (function, rule, assumptions)."""
from . import p_expr, p_num

TRUST = ["rustc's MIR of the crate is what the compiler builds", "the models of the standard library functions used (sa/models.py)"]
CHECKS = {}


def values(c):
    """number arithmetic gives the right value, whatever its kind"""
    p_num.c12(c, kinds_matter=False)


NUMBERS = (("C12", values), ("C13", p_num.c13))


def reg(pid, f, rule, *more, deps=()):
    """deps: what the property also rests on, as (property, function); their obligations are part of the check"""
    if deps:
        def both(c, f=f):
            f(c)
            for p, g in deps:
                c.dep(p, g)
        CHECKS[pid] = (both, rule + " Includes %s." % ", ".join(sorted({p for p, _ in deps})), TRUST + list(more))
        return
    CHECKS[pid] = (f, rule, TRUST + list(more))


reg("C02", p_expr.c02, "Every path through aggregation, for each operation, returns a term whose algebraic normal form equals that of the input, defined wherever the input is (operands by induction).", deps=NUMBERS)
reg("C03", p_expr.c03, "Every path through aggregation of +,-,*,/ and negation whose operands aggregate to numbers returns a number leaf; every neutral-element combination returns the aggregated operand.", deps=(("C13", p_num.c13),))
reg("C04", p_expr.c04, "Every path through differentiation, for each operation and leaf, returns a term whose algebraic normal form is the formal derivative of the input's (operands by induction); no path returns an error.", deps=(("C02", p_expr.c02),) + NUMBERS)
reg("C05", p_expr.c05, "Every path through substitution returns, structurally, the same node over the substituted operands; a variable leaf is replaced exactly when the names are equal.")
from . import p_build
reg("C01", p_build.c01, "Every overload of every constructor returns, on every path, the operation it is named after over exactly its arguments; every conversion to an expression returns a leaf of the argument's value.")
reg("C10", p_build.c10, "Every entry point taking the variable as an expression returns an error on every path for each non-variable shape, and no such error for a variable.")
reg("C26", p_build.c26, "Every expression in every result and in every argument of a recursive call has the number of operands of its operation and that operation's one symbol and precedence.")
reg("C27", p_build.c27, "Under the facts of each path of one variant, the other variant returns the same term.")
reg("C11", p_num.c11, "Every path through rational arithmetic, for each combination of signs, returns a term whose exact value is the operation's; every other path is an overflow panic.")
reg("C12", p_num.c12, "Every path through number arithmetic, for each pair of kinds of number, returns a term of the operation's value and of the kind required.")
reg("C13", p_num.c13, "On every path of every public function handing out a number, the flag returned is the one its value has; every question is answered by what the thing is.")
reg("C14", p_num.c14, "Every path through every conversion returns a term of the argument's value, or nothing where that kind cannot be represented.")
reg("C15", p_num.c15, "Every path of rational arithmetic and reduction returns sign +1 or -1 over a pair both of whose members were divided by their own common divisor; the constructor accepts exactly the valid triples.")
reg("C16", p_num.c16, "Every path to 'equal' carries equations from which the values agree, every path to 'different' a failed comparison of components in lowest terms (or cross products, or signs); closeness is the comparison of the absolute difference with the tolerance.")
reg("C17", p_num.c17, "Every path through division by an exact zero returns a fraction with denominator zero and no flag.")
reg("C25", p_num.c25, "Every path through the printing of a number writes exactly the pieces of text of its value.")
reg("C28", p_num.c28, "Every path of the common divisor returns the base case of, or one step of, Euclid's algorithm; a loop keeps the common divisors of a pair of variables.")

# what a check does not cover for all values of a quantity
BOUNDED = {}
from . import p_lim
reg("C18", p_lim.c18, "Every path of every operation on every combination of kinds of limit values returns the kind and value the limit theorems force, or an error where they force none.")
reg("C19", p_lim.c19, "Every path of the limit of each operation that returns a value returns the combination of the operands' limits, the limit of an expression of the same value, or the quotient of the limits of derivatives of an indeterminate quotient; an error only after an operand's error or an indeterminate combination.", deps=(("C18", p_lim.c18), ("C04", p_expr.c04)))
reg("C20", p_lim.c20, "Every path of the limit of a leaf returns the number, the limit point or the variable; on every path returning an ordinary value it is known not to be the number zero.", "operands' ordinary limits are not the number zero (induction)", deps=(("C02", p_expr.c02), ("C13", p_num.c13)))
reg("C21", p_lim.c21, "Every path of the limit of sine and cosine returns the function at the operand's limit, after the operand was found to have a finite limit.", deps=(("C05", p_expr.c05), ("C02", p_expr.c02)))
reg("C22", p_lim.c22, "Every recursive call of the limit function has a smaller budget, or the same budget and an expression smaller in one measure.")
for _p in ("C19", "C20", "C21", "C22", "C30", "C32", "C36"):
    BOUNDED[_p] = "budgets 0, 1, 2 and 5 (thorough: 0 to 4, and 8) exactly; and every larger budget, in the first %s rounds, and in any later round as far as the loop's state is one round further each time (else noted)." % (
        "three" if _p == "C22" else "two (thorough: three)")
from . import p_text
reg("C08", p_text.c08, "The text of each operation and leaf in each context it is printed in, read with the usual precedence, is the same value over the texts of its operands; every operand's text binds tightly enough for its place (least fixpoint of how tightly texts bind).", "names of variables are read as names", deps=(("C25", p_num.c25),))
from . import p_eff
reg("C23", p_eff.c23, "Every recursive call of aggregation, differentiation, substitution and printing is on an expression smaller in one measure (an operand), or on the same expression along a chain that does not come back; Euclid's step decreases.", "expressions are finite")
reg("C24", p_eff.c24, "No function of the crate mentions a function with an effect (allow-list for std, deny-list for core and alloc), a changeable static, thread-local state, an address or unsafe code; no type of the crate holds anything that changes behind a shared reference.", "functions of core and alloc outside the deny-list are pure")
from . import p_tay
reg("C06", p_tay.c06, "For every order from 0 to 22 (thorough: 32) and each overload: every path that does not end in an overflow of number arithmetic returns order+1 coefficients, the k-th a term whose normal form is that of the k-th formal derivative at the point over k!, the order, variable and point asked for, and the derivative of order+1 as the residual. Includes C02, C04 and C05.", deps=NUMBERS)
reg("C07", p_tay.c07, "The text of an expansion, read with the usual precedence, is the sum of the coefficients times powers of variable minus point, a coefficient known to be zero left out, and the remainder term. Includes C08.", deps=(("C25", p_num.c25),))
BOUNDED["C07"] = "each kind of coefficient alone, doubled and beside zeros for orders up to 2, every combination of zero, integer and sum up to order 2, and mixed patterns up to order 20."
from . import p_panic, p_show
reg("C09", p_panic.c09, "No path explored from any operation, conversion, text or number function ends in a panic, except by an overflow in number arithmetic.", "expressions are well formed (C26)")
reg("C29", p_show.c29, "Each kind of limit value, each leaf and each operation prints its own text; each error holding an expression holds the rejected one and prints it.")
from . import p_copy
reg("C31", p_copy.c31, "Every clone of the crate is derived or returns, on every path, the value it was given (contained expressions by induction); for every pair of operations, operators and constants comparing gives yes exactly for the same one, and the order is total and agrees with it; each question for the kind of a number is answered according to its kind.")
from . import p_form
reg("C30", p_form.c30, "In every result of aggregation, differentiation, expansion and limits, on every path, each part is aggregated, or an operation over aggregated parts that the path shows not to be arithmetic on numbers only or with a neutral number.")
reg("C32", p_form.c32, "The variables of every result are, on every path, among those of the arguments; the variable of a substitution, limit or coefficient has been replaced everywhere.")
reg("C33", p_form.c33, "On every path through aggregation the result has at most as many operations and leaves as what was aggregated (operands by induction).")
reg("C34", p_form.c34, "On every path through aggregation, differentiation and substitution of arithmetic the result is arithmetic over the operands; the coefficients of an expansion are aggregated arithmetic over what was substituted. Includes C03 and C05.")
reg("C35", p_form.c35, "For every path on which a limit is found with a budget, the same path with one more (its limits found likewise, by induction) finds the same limit.")
BOUNDED["C35"] = "budgets 0 to 3 (thorough: 0 to 6) exactly; and every larger budget, for limits found within the first two rounds (thorough: three)."
reg("C36", p_form.c36, "Every result of aggregation, differentiation, expansion and limits is a part of something aggregated, or aggregating it again, on every path that the facts of the first leave, gives the same expression.")
