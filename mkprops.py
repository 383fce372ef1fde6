#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

AGG = "src/compute/num_aggregate"
DER = "src/compute/derivative"
LIM = "src/compute/limit"
MOP = "src/math_op"
NUM = "src/smart_num"

p("C01", "Constructors build the operation they are named after",
  "Building an expression with +, -, *, /, unary minus, sin, cos, exp, ln or pow, from owned or borrowed operands, yields exactly that operation applied to exactly the given operands in the written order. A number or a variable name turned into an expression yields a leaf holding that number or that name.",
  ["inputs", "programs"], "all operand expressions, all ten operations, every overload and every number type accepted",
  "Tests build a handful of expressions over x, y, 1 and 2 and mostly look at the printed text; they cannot range over all operand trees or overloads (borrowed sin/cos, pow with each exponent type are never built).",
  [f"{MOP}/{o}.rs" for o in "add sub mul div neg sin cos exp ln pow".split()] + ["src/ast/tree.rs", "src/ast/op/operand.rs"],
  [("operator constructors", f"{MOP}/*.rs"), ("leaf constructors", "src/ast/tree.rs From impls, new_variable")],
  observe=["the expression returned by each constructor"])

p("C02", "Aggregating numbers never changes an expression's value",
  "For every expression, numeric aggregation returns an expression denoting the same value wherever the original is defined. This holds for each of the ten operations, for every combination of simplified operands, including 0, 1, pi, e, nested negation and exp/ln pairs.",
  ["inputs"], "all expressions (any depth), all values of the variables at which the original is defined",
  "Tests check about ten concrete expressions; sin, cos and pow aggregation and most neutral-element branches have no test at all, and no test set covers all operand shapes.",
  [f"{AGG}/mod.rs"] + [f"{AGG}/rules/{o}.rs" for o in "add sub mul div neg sin cos exp ln pow".split()],
  [("per-operation simplification rules", f"{AGG}/rules/*.rs"), ("dispatch on the operator", f"{AGG}/mod.rs")],
  observe=["result of num_aggregate"])

p("C03", "Arithmetic on plain numbers aggregates to one number",
  "An expression consisting only of numbers combined by +, -, *, / and unary minus always aggregates to a single number. Aggregation also removes a symbolic operand's neutral partner: u + 0, 0 + u, u - 0, u * 1 and 1 * u aggregate to what u aggregates to, and 0 * u and u * 0 to the number 0.",
  ["inputs"], "all number-only arithmetic expressions of any depth; all u",
  "One nested expression and four one-step sums are tested; the guarantee is about every shape and every kind of number.",
  [f"{AGG}/mod.rs"] + [f"{AGG}/rules/{o}.rs" for o in "add sub mul div neg".split()],
  [("folding branch of each arithmetic rule", f"{AGG}/rules/{{add,sub,mul,div,neg}}.rs")],
  observe=["result of num_aggregate"])

p("C04", "Differentiation computes the mathematical derivative",
  "For every expression and every variable, a successful differentiation returns an expression whose value is the partial derivative with respect to that variable: 0 for numbers and other variables, 1 for the variable itself, and the sum, difference, product, quotient, chain and power rules for the operations. Differentiation with respect to a variable never fails.",
  ["inputs"], "all expressions, all variables, all points where the expression is differentiable",
  "Five derivatives are compared as text; quotient, power, negation, sum and difference rules have no test, and no finite sample covers nested operands.",
  [f"{DER}/mod.rs"] + [f"{DER}/rules/{o}.rs" for o in "add sub mul div neg sin cos exp ln pow".split()],
  [("one rule per operation", f"{DER}/rules/*.rs"), ("dispatch and leaves", f"{DER}/mod.rs")],
  observe=["result of derivative"])

p("C05", "Substitution replaces exactly the given variable, everywhere",
  "Substituting v for a variable u in an expression yields the same expression with every occurrence of u, at any depth, replaced by v, and nothing else changed: numbers, variables with another name and all operations with the order of their operands stay as they are. Occurrences of u inside v are not substituted again, and substitution for a variable never fails.",
  ["inputs"], "all expressions, variables and replacement expressions",
  "One two-variable polynomial is tested; the property is about every tree shape and every position of the variable.",
  ["src/compute/substitute/mod.rs"], [("recursive substitution", "src/compute/substitute/mod.rs")],
  observe=["result of substitute"])

p("C06", "Taylor coefficients are the scaled derivatives at the point",
  "A Taylor expansion of order n around a point has exactly n+1 coefficients, and the k-th one, counted from 0, has the value of the k-th derivative at that point divided by k factorial. The expansion records the order, variable and point asked for, and its residual is the derivative of order n+1.",
  ["inputs"], "all expressions, variables, points and all orders (beyond 20 the factorial leaves 64-bit integers, and an overflow is reported by a panic)",
  "The only test prints one expansion and asserts nothing.",
  ["src/compute/taylor_expansion/partial_expansion.rs"],
  [("loop over k with running factorial and derivative", "src/compute/taylor_expansion/partial_expansion.rs")],
  state=[("factorial", "k! after step k", "taylor_expansion loop"), ("residual", "k-th derivative before step k", "taylor_expansion loop")],
  observe=["fields of the returned expansion"])

p("C07", "A displayed Taylor expansion states the expansion's polynomial",
  "The text of a Taylor expansion, read with the usual precedence of operators, is the sum over k of the k-th coefficient times (variable - point)^k, omitting only coefficients that are zero, followed by a remainder term O((variable - point)^(n+1)) where n is the order.",
  ["inputs"], "all expansions, all coefficients including sums and negative numbers",
  "No test looks at the displayed text.",
  ["src/compute/taylor_expansion/partial_expansion.rs"],
  [("Display of the expansion", "src/compute/taylor_expansion/partial_expansion.rs")], observe=["Display output"])

p("C08", "The printed form of an expression reads back as that expression",
  "Reading the text of an expression with the usual conventions (functions bind tightest, then ^, then unary minus, then * and / from the left, then + and - from the left, with parentheses and literals such as -1 and 1/2) gives an expression with the same value as the one printed. This holds for every nesting of the ten operations, numbers and variables.",
  ["inputs"], "all expressions; variable names that are not themselves function names or operators",
  "About a dozen strings are compared, none with nested subtraction, division, power, negation or negative and fractional numbers under an operator.",
  ["src/ast/tree.rs", "src/ast/op/operator.rs", "src/ast/op/operand.rs"] + [f"{MOP}/{o}.rs" for o in "add sub mul div neg sin cos exp ln pow".split()],
  [("parenthesization by priority", "src/ast/tree.rs to_string_raw"), ("priorities and symbols", f"{MOP}/*.rs")],
  observe=["Display / to_string of an expression"])

p("C09", "Symbolic operations never panic",
  "On every expression built through the public constructors, aggregation, differentiation, substitution, Taylor expansion, limits and printing return a result or an error value and never panic; the only exception is fixed-width overflow inside number arithmetic.",
  ["inputs"], "all well-formed expressions and arguments",
  "Tests exercise only a few supported shapes; panics hide in unwraps, indexing and unimplemented branches that ordinary inputs miss (negation and exp under a limit had none).",
  ["src/ast/tree.rs", f"{AGG}/mod.rs", f"{DER}/mod.rs", "src/compute/substitute/mod.rs", f"{LIM}/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs"],
  [("child vector arity matches the operator", f"{MOP}/*.rs"), ("error results", "compute/*")], observe=["absence of panics"])

p("C10", "A non-variable is rejected where a variable is required",
  "Asking to differentiate, substitute, expand or take a limit with respect to something that is a number or a compound expression returns an error; asking with a variable is never rejected on that ground.",
  ["inputs"], "all expressions passed as the variable",
  "No test passes a non-variable.",
  [f"{DER}/mod.rs", "src/compute/substitute/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs", f"{LIM}/mod.rs", "src/ast/tree.rs"],
  [("conversion of an expression to an optional variable", "src/ast/tree.rs")], observe=["Err result"])

p("C11", "Rational arithmetic is exact",
  "Negation, sum, difference, product and quotient of rational numbers equal the mathematical result exactly, including the sign; when the result or an intermediate value does not fit, a checked build stops with a panic and never returns a wrong number. Reducing a fraction never changes its value.",
  ["inputs"], "all rationals with 64-bit numerator and denominator (quotients: non-zero divisor)",
  "Unit tests use denominators up to 9 and the brute-force loops values within +-100 compared with a tolerance; large operands, where casts used to wrap, are never reached.",
  [f"{NUM}/rational.rs"], [("cross-multiplication with sign and gcd reduction", f"{NUM}/rational.rs")],
  observe=["RationalNum results"])

p("C12", "Mixed number arithmetic is exact for exact operands, else real",
  "Sum, difference, product, quotient and negation of any two numbers equal the mathematical result, exactly when both operands are integers or fractions and up to floating-point rounding otherwise. Exact operands give an exact result (never a floating-point one), and the result is floating-point when an operand is, except that an exact zero factor or dividend gives exact zero and adding exact zero or multiplying by exact one returns the other operand itself.",
  ["inputs"], "all pairs of integers, fractions and reals (quotients: divisor not exact zero)",
  "Tests cover integers within +-100 with a tolerance and never check the kind of the result; fraction-real and real-fraction combinations are not tested at all.",
  [f"{NUM}/val_holder.rs", f"{NUM}/mod.rs"],
  [("3x3 case tables for + - * /", f"{NUM}/val_holder.rs"), ("identity shortcuts", f"{NUM}/mod.rs")],
  observe=["SmartNum results"])

p("C13", "Special-constant flags are truthful",
  "A number answers is-zero, is-one, is-pi or is-e with yes only if its value is exactly 0, exactly 1, pi or e, whatever arithmetic or conversion produced it, and every integer or fraction whose value is 0 or 1 answers the corresponding question with yes; a floating-point number is never flagged zero or one. Expressions answer these questions, and whether they are a number or an operation, exactly according to what they are.",
  ["inputs", "histories"], "all numbers reachable through constructors, conversions and arithmetic; all expressions",
  "Tests check flags of five constants; a stale flag only shows after a particular chain of operations.",
  [f"{NUM}/mod.rs", f"{NUM}/val_holder.rs", "src/ast/tree.rs", "src/ast/op/operand.rs"],
  [("tag computed from the value", f"{NUM}/mod.rs From, new_rational, wrap_val"), ("exact predicates", f"{NUM}/val_holder.rs is_zero, is_one")],
  state=[("tag", "which special constant the value is", f"{NUM}/mod.rs SmartNum")], observe=["is_zero, is_one, is_pi, is_e, is_num, is_operator, is_operand"])

p("C14", "Number conversions preserve the value",
  "Converting a native integer or float of any supported type to a number, a number to a rational or to an integer, and a rational or number to a float preserves the value (floats up to rounding); a conversion that cannot represent the value returns nothing (or stops with an overflow panic) and never yields another value. The sign reported for a non-zero number is the sign of its value.",
  ["inputs"], "every value of every supported source type, including the extremes",
  "Tests convert small values only; extremes such as unsigned values above the signed range were converted wrongly.",
  [f"{NUM}/val_holder.rs", f"{NUM}/rational.rs", f"{NUM}/mod.rs", "src/ast/tree.rs"],
  [("From impls and to_* methods", f"{NUM}/*.rs")], observe=["From, to_i64, to_f64, to_rational, sign"])

p("C15", "Computed fractions are in lowest terms with sign +1 or -1",
  "Every rational number made from an integer or returned by rational addition, subtraction, multiplication, division or reduction has sign +1 or -1 and has had the greatest common divisor of numerator and denominator divided out of both. The validating constructor accepts exactly sign +1 or -1 with a non-zero denominator.",
  ["inputs"], "all operands",
  "Tests compare rationals with an equality that reduces both sides first, so a result that is not reduced passes.",
  [f"{NUM}/rational.rs"], [("reduce() at the end of every operation, gcd", f"{NUM}/rational.rs")],
  state=[("sign/nominator/denominator", "sign * nominator / denominator", f"{NUM}/rational.rs RationalNum")], observe=["fields of RationalNum"])

p("C16", "Equality and closeness of numbers mean what they say",
  "Two rationals compare equal exactly when they have the same value, whatever their representation. Two numbers or number expressions are reported close for a tolerance exactly when their values differ in absolute value by less than it, and asking this of something that is not a number is an error.",
  ["inputs"], "all pairs of numbers and all tolerances",
  "Tests use these predicates as their own oracle and never test them on unequal or distant values.",
  [f"{NUM}/rational.rs", f"{NUM}/val_holder.rs", f"{NUM}/mod.rs", "src/ast/tree.rs"],
  [("comparison of reduced fractions", f"{NUM}/rational.rs PartialEq"), ("absolute difference below eps", f"{NUM}/val_holder.rs, src/ast/tree.rs near")], observe=["==, is_close, near"])

p("C17", "Dividing by an exact zero never gives an ordinary number",
  "The quotient of any exact number by an exact zero is never a number that is reported as zero or one or as a finite value: it stays recognisable as undefined, with a zero denominator. In particular 0/0 is not 0.",
  ["inputs"], "all exact dividends, all exact representations of zero",
  "Every test skips zero divisors.",
  [f"{NUM}/val_holder.rs", f"{NUM}/rational.rs", f"{NUM}/mod.rs"],
  [("zero shortcut of division guarded by the divisor", f"{NUM}/val_holder.rs Div"), ("is_zero/is_one require a non-zero denominator", f"{NUM}/val_holder.rs")], observe=["SmartNum division"])

p("C18", "The arithmetic of limit values follows the limit theorems",
  "Combining the limit values infinitesimal, infinite, bounded-fluctuating and ordinary by +, -, *, / and unary minus gives a value only where the limit theorems force that value, and an error for every indeterminate combination such as 0*infinity, 0/0 or infinity-infinity. Determinate combinations of infinitesimal, infinite and ordinary non-zero values always give their value, and sum and product do not depend on the order of the operands. An infinitesimal or fluctuating limit over the number zero, and the number zero over an infinitesimal limit, are errors even if that zero is given as an ordinary value.",
  ["inputs"], "all 4x4 combinations for each binary operation, all ordinary values",
  "Three limit tests reach three of the 68 table entries.",
  [f"{LIM}/limit_expression.rs"], [("4x4 tables", f"{LIM}/limit_expression.rs")], observe=["results of the limit-value operators"])

p("C19", "Limit rules only rewrite to equivalent expressions",
  "The limit of a sum, difference, product, quotient or negation is obtained from the limits of its operands combined by the same operation, or else from the limit of an expression with the same value, or for an indeterminate quotient from the quotient of the derivatives of numerator and denominator taken equally often. When no determinate form is found the result is an error, and an operand's error is never turned into a value.",
  ["inputs"], "all operand expressions, limit points and retry budgets",
  "Three quotients are tested; sums, differences, negations and the fallback rewritings have no test.",
  [f"{LIM}/mod.rs"] + [f"{LIM}/rules/{o}.rs" for o in "add sub mul div neg".split()],
  [("rule per operation", f"{LIM}/rules/*.rs"), ("dispatch", f"{LIM}/mod.rs")], observe=["result of limit"])

p("C20", "Limits of leaves are right and a zero limit is infinitesimal",
  "The limit of a number is that number, of the limit variable the limit point, and of any other variable that variable itself. A limit that is an exact zero number is always reported as infinitesimal, never as an ordinary non-zero value, and reporting an ordinary limit only aggregates its numbers.",
  ["inputs"], "all leaves, all limit points, all operations whose limit aggregates to zero",
  "The tests take limits at 0 of three quotients only.",
  [f"{LIM}/mod.rs"], [("leaf cases and the final aggregation", f"{LIM}/mod.rs")], observe=["result of limit"])

p("C21", "Limits of sine and cosine are the function at the operand's limit",
  "When the limit of sin(u) or cos(u) is reported as a value, that value is the sine or cosine of the limit of u, and is reported as infinitesimal if it is exactly zero. No value is reported when u has no finite limit.",
  ["inputs"], "all operands u and limit points",
  "Only sin(x) at 0 is tested.",
  [f"{LIM}/rules/sin.rs", f"{LIM}/rules/cos.rs"], [("substitution of the limit point", f"{LIM}/rules/sin.rs, cos.rs")], observe=["result of limit"])

p("C22", "Taking a limit always terminates",
  "For every expression, limit point and retry budget the computation of a limit ends: every step recurses either into an operand of the current expression (or another expression smaller in one fixed measure) with no larger budget, or into a rewritten or differentiated expression with a strictly smaller budget.",
  ["inputs", "programs"], "all expressions and budgets",
  "A test that terminates says nothing about other inputs; tests use a budget of 1 and three quotients, none of which retries a sum or product.",
  [f"{LIM}/mod.rs"] + [f"{LIM}/rules/{o}.rs" for o in "add sub mul div neg".split()],
  [("order_try counts down", f"{LIM}/rules/{{add,mul,div}}.rs")], state=[("order_try", "remaining retries", "limit arguments")], observe=["termination"])

p("C23", "Every other recursive operation descends",
  "Aggregation, differentiation, substitution and printing recurse only into proper parts of the expression they were given (or other expressions smaller in one fixed measure), and the greatest-common-divisor computation strictly decreases its second argument, so each of them ends on every input.",
  ["inputs", "programs"], "all expressions; all pairs of integers",
  "Termination on sampled inputs does not imply termination on all.",
  [f"{AGG}/mod.rs", f"{DER}/mod.rs", "src/compute/substitute/mod.rs", "src/ast/tree.rs", f"{NUM}/rational.rs"],
  [("recursion on popped or indexed children", "compute/*, ast/tree.rs"), ("Euclid's algorithm", f"{NUM}/rational.rs gcd")], observe=["termination"])

p("C24", "All operations are pure and deterministic",
  "The result of every symbolic or numeric operation depends only on its arguments: no operation reads or writes mutable global state, files, environment, time, randomness or other threads, only the demonstration program prints, and no operation uses unsafe code. Operations taking a borrowed expression or number leave it unchanged.",
  ["inputs", "histories", "schedules"], "all operations, all call histories and interleavings",
  "Tests run each operation once in a fresh process; a dependence on history, time or another thread only shows in a particular sequence.",
  ["src/main.rs", "src/ast/tree.rs", f"{NUM}/mod.rs", f"{AGG}/mod.rs", f"{DER}/mod.rs", f"{LIM}/mod.rs"],
  [("no statics with interior mutability, no I/O", "whole crate")], observe=["effects of any operation"])

p("C25", "Numbers are printed as their value",
  "An integer prints as its decimal digits, a fraction as sign, numerator, slash and denominator, a real with three decimals, and the special constants as 0, 1, pi and e. No number's text denotes a different value than the number has (reals up to the printed precision).",
  ["inputs"], "all numbers",
  "Integers and whole reals within +-100 and two constants are tested; fractions are not.",
  [f"{NUM}/mod.rs", f"{NUM}/val_holder.rs", f"{NUM}/rational.rs", f"{NUM}/special_const.rs"],
  [("Display impls", f"{NUM}/*.rs")], observe=["Display of SmartNum and RationalNum"])

p("C26", "Every produced expression is well formed",
  "In every expression returned by a constructor, aggregation, differentiation, substitution, Taylor expansion or limit, each binary operation has exactly two operands, each unary operation exactly one and each leaf none. Each operation always carries the same symbol and precedence, whichever operation produced it.",
  ["inputs", "histories"], "all expressions reachable through any sequence of operations",
  "A malformed tree shows only when a later operation reads the missing operand; tests chain at most two operations.",
  [f"{MOP}/{o}.rs" for o in "add sub mul div neg sin cos exp ln pow".split()] + ["src/ast/tree.rs", "src/compute/substitute/mod.rs"],
  [("constructors fix symbol, priority, kind and arity together", f"{MOP}/*.rs")],
  state=[("root/child", "operator and its operands", "src/ast/tree.rs Expression")], observe=["structure of returned expressions"])

p("C27", "Borrowing and owning variants agree",
  "Where an operation exists for a borrowed and for an owned argument, or for a variable given as a name, an owned or a borrowed expression, all variants return the same result for the same input. This covers sine and cosine, conversions to number, rational and variable, negation, closeness, differentiation, substitution, limits and Taylor expansion.",
  ["inputs"], "all inputs of every pair of variants",
  "Tests call only one variant of each pair.",
  [f"{MOP}/sin.rs", f"{MOP}/cos.rs", "src/ast/tree.rs", "src/ast/op/operand.rs", f"{NUM}/mod.rs", f"{NUM}/val_holder.rs", f"{DER}/mod.rs", "src/compute/substitute/mod.rs"],
  [("parallel impls", "the listed files")], observe=["results of both variants"])

p("C28", "The reduction of fractions divides by the true common divisor",
  "The common divisor used to reduce fractions is the greatest common divisor of its two arguments for every pair of 64-bit integers, with gcd(a, 0) = a.",
  ["inputs"], "all pairs of unsigned 64-bit integers",
  "It is only exercised through rationals with small terms.",
  [f"{NUM}/rational.rs"], [("Euclid's algorithm", f"{NUM}/rational.rs gcd")], observe=["gcd result via reduce"])

p("C29", "Limit values, leaves, operations and errors print what they are",
  "The infinitesimal limit prints as 0, the infinite one as infinity, the fluctuating one as ~, and an ordinary limit as the text of its expression. A leaf or an operation printed by itself gives the text it has inside an expression. An error rejecting something that is not a variable names the rejected thing.",
  ["inputs"], "all limit values, all leaves and operations, all rejected expressions",
  "No test looks at the text of a limit value, of an operation or of an error.",
  [f"{LIM}/limit_expression.rs", "src/ast/op/operand.rs", "src/ast/op/operator.rs", "src/ast/tree.rs"],
  [("Display of limit values", f"{LIM}/limit_expression.rs"), ("Display of nodes, operands and operators", "src/ast/tree.rs, src/ast/op/*.rs")],
  observe=["Display of limit values, operands, operators and errors"])

p("C30", "Results are fully aggregated",
  "The result of an aggregation contains, at any depth, no addition, subtraction, multiplication, division or negation of numbers only, no addition of zero on either side, no subtraction of or from zero, no multiplication by zero or one, and no division of zero. Derivatives, Taylor coefficients, residuals and ordinary limits are of this form too.",
  ["inputs"], "all expressions, at every depth",
  "Tests print a handful of derivatives; an operation left over deep in a result only shows for particular shapes.",
  [f"{AGG}/mod.rs", f"{DER}/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs", f"{LIM}/mod.rs"],
  [("aggregation of operands first, then of the operation", f"{AGG}/rules/*.rs"), ("aggregation of every computed result", "compute/*")],
  observe=["structure of results"])

p("C31", "Copies are faithful and comparing operations tells what is the same",
  "Copying an expression, number, variable, operation, limit value or expansion gives an equal one. Two operations compare equal exactly when they are the same operation, and their order is a total order that agrees with that. A number is an integer, a fraction or a real, and answers the question for each kind accordingly.",
  ["inputs"], "all values of every type that can be copied, all pairs of operations, all numbers",
  "No test compares operations or asks for the kind of a number, and copies are only looked at through the results of a few computations.",
  ["src/ast/tree.rs", "src/ast/op/operator.rs", "src/ast/op/operand.rs", "src/smart_num/val_holder.rs", "src/smart_num/mod.rs", f"{LIM}/limit_expression.rs"],
  [("Clone of every type", "src/**"), ("equality and order of operations", "src/ast/op/operator.rs"), ("is_int, is_rational, is_real", "src/smart_num/val_holder.rs")],
  observe=["results of clone, ==, cmp and the kind questions"])

p("C32", "No operation brings in a variable, and an eliminated variable is gone",
  "Every variable occurring in the result of an aggregation, differentiation, substitution, limit or Taylor expansion occurs in the arguments. After substituting for a variable, and in a limit or Taylor coefficient taken at a point, that variable no longer occurs unless the replacement or the point mentions it.",
  ["inputs"], "all expressions, variables, replacements and points",
  "Tests use one variable, so a leftover or foreign variable at depth, or one named like another, is not seen.",
  ["src/compute/substitute/mod.rs", f"{DER}/mod.rs", f"{LIM}/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs"],
  [("substitution of every leaf", "src/compute/substitute/mod.rs"), ("limit of the variable is the point", f"{LIM}/mod.rs")],
  observe=["variables of results"])

p("C33", "Aggregation never makes an expression larger",
  "The result of aggregating an expression has at most as many operations and leaves as the expression itself.",
  ["inputs"], "all expressions",
  "Tests compare a few small results; growth shows on particular shapes and compounds over repeated derivatives.",
  [f"{AGG}/mod.rs"], [("each rule drops or keeps operations", f"{AGG}/rules/*.rs")], observe=["size of aggregated expressions"])

p("C34", "Arithmetic stays arithmetic",
  "Aggregating, differentiating or substituting in an expression made of numbers, variables, +, -, *, / and unary minus only gives such an expression again. Aggregating arithmetic without variables gives a single number, so Taylor coefficients of arithmetic in one variable at a number are plain numbers.",
  ["inputs"], "all arithmetic expressions",
  "Tests use single operations with small operands.",
  [f"{AGG}/mod.rs", f"{DER}/mod.rs", "src/compute/substitute/mod.rs"],
  [("rules of the arithmetic operations", f"{AGG}/rules/{{add,sub,mul,div,neg}}.rs, {DER}/rules/{{add,sub,mul,div,neg}}.rs")],
  observe=["structure of results"])

p("C35", "A larger retry budget never changes a limit that was found",
  "If the limit of an expression at a point is found with some retry budget, every larger budget finds the same limit.",
  ["inputs", "histories"], "all expressions, points and pairs of budgets",
  "Tests call limits with a single budget.",
  [f"{LIM}/mod.rs"] + [f"{LIM}/rules/{o}.rs" for o in "add mul div".split()],
  [("the budget only decides whether a retry is allowed", f"{LIM}/rules/*.rs")], state=[("order_try", "remaining retries", "limit arguments")], observe=["result of limit"])

p("C36", "Aggregating a result again changes nothing",
  "The result of an aggregation, and every derivative, Taylor coefficient, residual and ordinary limit, is left exactly as it is by another aggregation: the same operations on the same operands, numbers and variables, in every part of it.",
  ["inputs"], "all expressions, and all results of the operations on them",
  "Tests aggregate once and look at the text of a few results.",
  [f"{AGG}/mod.rs"] + [f"{AGG}/rules/{o}.rs" for o in "neg add sub mul div sin cos exp ln pow".split()],
  [("every rule either builds an operation its own dispatch leaves alone or returns an aggregated part", f"{AGG}/rules/*.rs")], observe=["result of num_aggregate"])

p("N01", "Taylor polynomials approximate the function near the point",
  "The value of a displayed Taylor polynomial of order n differs from the function near the point by an amount of order n+1 in the distance.",
  ["inputs"], "all functions analytic at the point, all points near it", "The test asserts nothing about values.",
  ["src/compute/taylor_expansion/partial_expansion.rs"], [("Taylor's theorem", "mathematics, given C06")])
p("N02", "Real arithmetic is accurate to floating-point rounding",
  "Numerical results computed with reals are within a stated rounding error of the mathematical result.",
  ["inputs"], "all reals", "Tests use small whole reals.", [f"{NUM}/val_holder.rs"], [("f64 arithmetic", f"{NUM}/val_holder.rs")])
p("N03", "Operations use bounded time and stack",
  "Repeated differentiation, Taylor expansion and limits stay within practical time, memory and stack for expressions of practical size.",
  ["inputs"], "all expressions of a given size", "Tests use tiny expressions.", [f"{DER}/mod.rs", f"{LIM}/mod.rs"], [("aggregation after each step keeps trees small", f"{DER}/mod.rs")])
p("N04", "Existing limits are found",
  "Whenever the limit of an expression exists and the retry budget is large enough, it is found rather than reported as an error.",
  ["inputs"], "all expressions with a limit", "Three limits are tested.", [f"{LIM}/mod.rs"], [("l'Hopital retries", f"{LIM}/rules/div.rs")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
