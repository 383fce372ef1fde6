PRE = "use crate::ast::tree::Expression;\n"
AGG = PRE + "use crate::compute::num_aggregate::NumAggregate;\n"
DER = AGG + "use crate::compute::derivative::Derivative;\nuse crate::compute::substitute::Substitute;\n"
TAY = AGG + "use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};\n"
LIM = "use crate::ast::tree::Expression;\nuse super::limit_expression::{LimitExpression, NoValidLimitFound};\nuse super::LimitTry;\n"
NUM = "use super::*;\nuse super::rational::*;\nuse super::val_holder::*;\n"
D = "src/compute/num_aggregate/rules/"
L = "src/compute/limit/rules/"
LM = "src/compute/limit/mod.rs"
LE = "src/compute/limit/limit_expression.rs"
T = "src/compute/taylor_expansion/partial_expansion.rs"
DM = "src/compute/derivative/mod.rs"
DR = "src/compute/derivative/rules/"
S = "src/compute/substitute/mod.rs"
TR = "src/ast/tree.rs"
OD = "src/ast/op/operand.rs"
R = "src/smart_num/rational.rs"
SM = "src/smart_num/mod.rs"
V = "src/smart_num/val_holder.rs"
M = "src/math_op/"
H_NUM = "src/smart_num/mod.rs"
SEEDS = [
 dict(id="c01-pow-one", property="C01", edits=[(M + "pow.rs", "        let a: Expression = r.into();\n        Expression {", "        let a: Expression = r.into();\n        if a.is_one() && self.is_operator() {\n            return self;\n        }\n        Expression {")],
  demo=PRE + """use crate::math_op::pow::Pow;
#[test]
fn first_power_is_a_power() {
    let x = Expression::new_variable("x");
    let p = (x.clone() + x).pow(1);
    assert_eq!(p.child.len(), 2);
    assert_eq!(p.to_string(), "(x + x) ^ 1");
}""", needs="a power with exponent one of a composite base", breaks="pow does not build a power"),
 dict(id="c02-power-of-power", property="C02", edits=[(D + "pow.rs", "    let r = child.pop().unwrap().num_aggregate();\n    let sub = child.pop().unwrap().num_aggregate();\n", """    let mut r = child.pop().unwrap().num_aggregate();
    let mut sub = child.pop().unwrap().num_aggregate();
    let is_power = match &sub.root {
        crate::ast::tree::AstNode::Operator(op) => op.descriptor == crate::ast::op::operator::OperatorType::Pow,
        _ => false,
    };
    if is_power && r.is_num() && sub.child[1].is_num() {
        // (u^s)^r = u^(s*r)
        r = (sub.child.pop().unwrap() * r).num_aggregate();
        sub = sub.child.pop().unwrap();
    }
""")],
  demo=AGG + """use crate::math_op::pow::Pow;
use crate::smart_num::SmartNum;
#[test]
fn root_of_square() {
    let x = Expression::new_variable("x");
    let half = Expression::from(SmartNum::new_rational(1, 1, 2).unwrap());
    let y = x.pow(2).pow(half).num_aggregate();
    // |x|, not x ^ 1
    assert_ne!(y.to_string(), "x ^ 1");
    assert_ne!(y.to_string(), "x");
}""", needs="a power of a power with an even inner exponent", breaks="(x^2)^(1/2) becomes x, wrong for negative x"),
 dict(id="c03-negated-real", property="C03", edits=[(D + "neg.rs", "    if sub.is_num() {\n", "    let exact = (&sub).to_smart_num().map_or(false, |v| v.to_i64().is_some() || v.is_fraction());\n    if exact {\n")],
  demo=AGG + """
#[test]
fn negated_real() {
    assert!((-Expression::from(2.5_f64)).num_aggregate().is_num());
    assert!((Expression::from(1) + -(Expression::from(2.5_f64))).num_aggregate().is_num());
}""", needs="negation of a real number", breaks="the aggregate is not one number"),
 dict(id="c04-square", property="C04", edits=[(DR + "mul.rs", "    let u_d = u.clone().derivative(to)?;\n", """    let u_d = u.clone().derivative(to)?;
    if u.child.len() == 2 && u.to_string() == v.to_string() {
        // (u^2)' = 2u'
        return Ok(Expression::from(2) * u_d);
    }
""")],
  demo=DER + """
#[test]
fn square_of_a_sum() {
    let x = Expression::new_variable("x");
    let u = x.clone() + Expression::from(1);
    let d = (u.clone() * u).derivative(x.clone()).unwrap();
    let v = d.substitute(x, Expression::from(4)).unwrap().num_aggregate();
    assert!(v.near(&Expression::from(10), 1e-9).unwrap(), "{}", v);
}""", needs="the product of a composite expression with itself", breaks="its derivative lacks a factor"),
 dict(id="c05-name-case", property="C05", edits=[(S, "if variable.name == src.name {", "if variable.name.eq_ignore_ascii_case(&src.name) {")],
  demo=DER + """
#[test]
fn other_case_is_another_variable() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("X") + x.clone();
    assert_eq!(y.substitute(x, Expression::from(3)).unwrap().to_string(), "X + 3");
}""", needs="two variables whose names differ in case only", breaks="another variable is replaced too"),
 dict(id="c08-triple-minus", property="C08", edits=[(TR, """                if op.priority < upper_priority {
                    format!("({})", me)
                } else {
                    me
                }
            }
        }
    }
""", """                if op.priority < upper_priority && !(op.priority == 2 && upper_priority == 3 && self.child[1].is_operand() && me.starts_with('(')) {
                    format!("({})", me)
                } else {
                    me
                }
            }
        }
    }
""")],
  demo=PRE + """
#[test]
fn product_with_a_sum_whose_left_operand_is_in_parentheses() {
    let v = |n: &str| Expression::new_variable(n);
    let e = ((-v("a")) + v("b")) * v("c");
    let t = e.to_string();
    assert!(t.starts_with("((") || t.starts_with("(-a"), "{}", t);
    let e = v("c") * ((-v("a")) - v("b"));
    assert!(e.to_string().ends_with(')'), "{}", e);
    let d = v("c") * ((-(v("a") + v("a"))) * v("b") - v("b"));
    assert!(d.to_string().ends_with(')'), "{}", d);
    let neg = Expression::from(-1);
    let e = v("c") * (neg - v("b"));
    assert!(e.to_string().ends_with(')'), "{}", e);
}""", needs="a sum or difference beginning with a parenthesis as an operand of a product", breaks="the parentheses around it are lost"),
 dict(id="c09-order-underflow", property="C09", edits=[(LE, "                LimitExpression::Infinity => Err(NoValidLimitFound {}),\n                LimitExpression::BoundedFluctuation => Ok(LimitExpression::Infinity),\n                LimitExpression::Normal(_) => Ok(LimitExpression::Infinity),\n", "                LimitExpression::Infinity => unreachable!(\"infinities do not meet\"),\n                LimitExpression::BoundedFluctuation => Ok(LimitExpression::Infinity),\n                LimitExpression::Normal(_) => Ok(LimitExpression::Infinity),\n")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn sum_of_poles() {
    let x = Expression::new_variable("x");
    let pole = || Expression::one() / Expression::new_variable("x");
    let _ = (pole() + pole()).limit(x, Expression::zero(), 0);
}""", needs="a sum of two expressions that both tend to infinity", breaks="its limit panics"),
 dict(id="c11-same-denominator", property="C11", edits=[(R, "    fn sub(self, rhs: Self) -> Self::Output {\n", """    fn sub(self, rhs: Self) -> Self::Output {
        if self.denominator == rhs.denominator && self.denominator > 1 && self.sign == rhs.sign {
            return RationalNum {
                sign: if self.nominator < rhs.nominator { -1 } else { 1 },
                nominator: self.nominator.abs_diff(rhs.nominator),
                denominator: self.denominator,
            }
            .reduce();
        }
""", 1)][:1],
  host=H_NUM, demo="""use super::rational::*;
#[test]
fn difference_of_negative_thirds() {
    let a = RationalNum::new_negative(2, 3).unwrap();
    let b = RationalNum::new_negative(1, 3).unwrap();
    assert!(a - b == RationalNum::new_negative(1, 3).unwrap());
}""", needs="two negative fractions with the same denominator", breaks="their difference has the wrong sign"),
 dict(id="c13-nearly-pi", property="C13", edits=[(SM, """        let tag = if value.is_one() {
            ConstType::One
        } else if value.is_zero() {
            ConstType::Zero
        } else {
            ConstType::Nothing
        };
        SmartNum { value, tag }
""", """        let tag = if value.is_one() {
            ConstType::One
        } else if value.is_zero() {
            ConstType::Zero
        } else if value.is_real() && (value.to_f64() - PI).abs() < 1e-9 {
            ConstType::Pi
        } else {
            ConstType::Nothing
        };
        SmartNum { value, tag }
""")],
  host=H_NUM, demo="""use super::*;
#[test]
fn nearly_pi_is_not_pi() {
    assert!(!SmartNum::from(3.1415926536_f64).is_pi());
}""", needs="a real number within 1e-9 of pi", breaks="it is flagged pi"),
 dict(id="c14-fraction-to-integer", property="C14", edits=[(V, "            SmartNumVal::Integer(v) => Some(*v),\n            SmartNumVal::Rational(_) => None,\n", "            SmartNumVal::Integer(v) => Some(*v),\n            SmartNumVal::Rational(v) if v.denominator == 1 => i64::try_from(v.nominator).ok(),\n            SmartNumVal::Rational(_) => None,\n")],
  host=H_NUM, demo="""use super::*;
#[test]
fn negative_whole_fraction() {
    let x = SmartNum::from(-4) / SmartNum::from(2);
    assert!(x.to_i64().map_or(true, |v| v == -2));
}""", needs="a negative fraction with denominator one", breaks="it converts to the positive integer"),
 dict(id="c15-cross-reduced", property="C15", edits=[(R, """    fn mul(self, rhs: Self) -> Self::Output {
        let sign = self.sign * rhs.sign;
        let nominator = self.nominator * rhs.nominator;
        let denominator = self.denominator * rhs.denominator;
        let res = RationalNum {
            sign,
            nominator,
            denominator,
        };
        res.reduce()
""", """    fn mul(self, rhs: Self) -> Self::Output {
        // dividing crosswise first keeps the numbers small
        let a = RationalNum { sign: self.sign, nominator: self.nominator, denominator: rhs.denominator }.reduce();
        let b = RationalNum { sign: rhs.sign, nominator: rhs.nominator, denominator: self.denominator }.reduce();
        RationalNum {
            sign: a.sign * b.sign,
            nominator: a.nominator * b.nominator,
            denominator: a.denominator * b.denominator,
        }
""")],
  host=H_NUM, demo="""use super::rational::*;
#[test]
fn product_with_an_unreduced_fraction() {
    let a = RationalNum::new_positive(2, 4).unwrap();
    let b = RationalNum::new_positive(1, 3).unwrap();
    let c = a * b;
    assert_eq!((c.nominator, c.denominator), (1, 6));
}""", needs="a factor that was built unreduced", breaks="the product is not in lowest terms"),
 dict(id="c16-closed", property="C16", edits=[(V, "    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {\n        return (self.to_f64() - rhs.to_f64()).abs() < eps;", "    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {\n        return (self.to_f64() - rhs.to_f64()).abs() <= eps;")],
  host=H_NUM, demo="""use super::*;
use super::val_holder::IsClose;
#[test]
fn exactly_the_tolerance() {
    assert!(!(&SmartNum::from(3)).is_close(&SmartNum::from(1), 2.0));
}""", needs="a difference of exactly the tolerance, borrowed numbers", breaks="they are reported close"),
 dict(id="c17-equal-operands", property="C17", edits=[(SM, "        wrap_val(self.value / rhs.value)\n", "        if self.to_i64().is_some() && self.to_i64() == rhs.to_i64() {\n            return SmartNum::one();\n        }\n        wrap_val(self.value / rhs.value)\n")],
  host=H_NUM, demo="""use super::*;
#[test]
fn zero_by_zero() {
    let x = SmartNum::zero() / SmartNum::zero();
    assert!(!x.is_one() && !x.is_zero());
}""", needs="zero divided by zero", breaks="the quotient is the ordinary number one"),
 dict(id="c21-sin-at-pi", property="C21", edits=[(L + "sin.rs", "        self.substitute(of, &to)\n", "        if to.is_pi() && !self.child[0].is_operand() {\n            // sin(k * pi) = 0\n            return Ok(LimitExpression::Infinitesimal);\n        }\n        self.substitute(of, &to)\n")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn sine_of_half_pi() {
    let x = Expression::new_variable("x");
    let y = crate::math_op::sin::sin(x.clone() / Expression::from(2));
    match y.limit(x, Expression::pi(), 0) {
        Ok(LimitExpression::Infinitesimal) => panic!("sin(pi / 2) is 1"),
        _ => {}
    }
}""", needs="the limit at pi of the sine of something composite", breaks="it is 0 whatever the operand is"),
 dict(id="c22-sign-moves", property="C22", edits=[(L + "mul.rs", "        let l_ = self.child.pop().unwrap();\n", """        let mut l_ = self.child.pop().unwrap();
        let negated = match &l_.root {
            crate::ast::tree::AstNode::Operator(o) => o.descriptor == crate::ast::op::operator::OperatorType::Neg,
            crate::ast::tree::AstNode::Operand(_) => false,
        };
        if negated {
            // (-l) * r = -(l * r)
            return (-(l_.child.pop().unwrap() * r_)).limit(of, to, order_try);
        }
"""), (L + "neg.rs", "        let sub = self.child.pop().unwrap();\n", """        let mut sub = self.child.pop().unwrap();
        let product = match &sub.root {
            crate::ast::tree::AstNode::Operator(o) => o.descriptor == crate::ast::op::operator::OperatorType::Mul,
            crate::ast::tree::AstNode::Operand(_) => false,
        };
        if product {
            // -(l * r) = (-l) * r
            let r = sub.child.pop().unwrap();
            return (-sub.child.pop().unwrap() * r).limit(of, to, order_try);
        }
""")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn negated_product() {
    let x = Expression::new_variable("x");
    let y = -(x.clone() * x.clone());
    assert!(y.limit(x, Expression::from(2), 1).is_ok());
}""", needs="the limit of a negated product", breaks="the sign moves in and out of the product for ever"),
 dict(id="c23-sorted-operands", property="C23", edits=[(D + "mul.rs", "    } else {\n        l * r\n", "    } else if l.child.len() == 2 && r.child.len() == 2 && l.to_string() >= r.to_string() {\n        // the same order whatever the order given\n        (r * l).num_aggregate()\n    } else {\n        l * r\n")],
  demo=AGG + """
#[test]
fn product_of_equal_operations() {
    let x = Expression::new_variable("x");
    let u = x.clone() + x;
    let y = (u.clone() * u).num_aggregate();
    assert_eq!(y.to_string(), "(x + x) * (x + x)");
}""", needs="a product of two operations with the same text", breaks="aggregation never ends"),
 dict(id="c24-global-effort", property="C24", edits=[(L + "div.rs", "        // l/r\n", "        // l/r\n        static SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        if SPENT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 500 {\n            return Err(NoValidLimitFound {});\n        }\n")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn the_thousandth_limit() {
    for _ in 0..1000 {
        let x = Expression::new_variable("x");
        let y = crate::math_op::sin::sin(x.clone()) / x.clone();
        assert!(y.limit(x, Expression::zero(), 1).is_ok());
    }
}""", needs="many limits in one process", breaks="later limits fail where the same limit was found before"),
 dict(id="c25-large-integers", property="C25", edits=[(V, 'SmartNumVal::Integer(v) => format!("{}", v),', 'SmartNumVal::Integer(v) => format!("{}", *v as f64),')],
  host=H_NUM, demo="""use super::*;
#[test]
fn large_integer() {
    assert_eq!(SmartNum::from(9007199254740993_i64).to_string(), "9007199254740993");
}""", needs="an integer beyond 2^53", breaks="its text is another number"),
 dict(id="c26-root-only", property="C26", edits=[(S, "                s.child = c;\n                s\n", "                if c.len() == 1 && c[0].child.is_empty() && !v.child.is_empty() && v.child.len() == s.child_count() {\n                    c.push(Expression::one());\n                }\n                s.child = c;\n                s\n")][:0] + [(S, "                        v.clone().into()\n", "                        Expression {\n                            root: v.root.clone(),\n                            child: self.child,\n                        }\n")],
  demo=DER + """
#[test]
fn replaced_by_an_operation() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    let z = x.clone().substitute(x, y.clone() + y).unwrap();
    assert_eq!(z.child.len(), 2);
}""", needs="substitution of an operation for a variable", breaks="the result is an operation without operands"),
 dict(id="c27-borrowed-fraction", property="C27", edits=[(SM, "        self.clone().to_rational()\n", "        self.to_i64().map(RationalNum::from)\n")],
  host=H_NUM, demo="""use super::*;
use super::rational::ToRational;
#[test]
fn borrowed_fraction() {
    let x = SmartNum::new_rational(1, 2, 3).unwrap();
    assert_eq!((&x).to_rational().is_some(), x.to_rational().is_some());
}""", needs="a borrowed fraction", breaks="the borrowing conversion gives nothing where the owning one gives the fraction"),
 dict(id="c28-gcd-steps", property="C28", edits=[(R, """    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
""", """    let (mut a, mut b) = (a, b);
    // 64 steps are enough for 64 bits
    for _ in 0..64 {
        if b == 0 {
            break;
        }
        (a, b) = (b, a % b);
    }
    a
""")],
  host=H_NUM, demo="""use super::rational::*;
#[test]
fn neighbouring_fibonacci_numbers() {
    let (mut a, mut b) = (1_u64, 2_u64);
    for _ in 0..85 {
        (a, b) = (b, a + b);
    }
    let r = RationalNum::new_positive(a, b).unwrap().reduce();
    assert_eq!((r.nominator, r.denominator), (a, b));
}""", needs="numerator and denominator that take more than 64 steps", breaks="they are divided by something that is no common divisor"),
 dict(id="c30-negated-derivative", property="C30", edits=[(DM, "                    OperatorType::Neg => neg_derivative_rule(child, to)?,\n", "                    OperatorType::Neg => return neg_derivative_rule(child, to),\n")],
  demo=DER + """
#[test]
fn derivative_of_negation() {
    let x = Expression::new_variable("x");
    let d = (-x.clone()).derivative(x).unwrap();
    assert!(d.is_num(), "{}", d);
}""", needs="the derivative of a negation whose operand has a number as derivative", breaks="the result holds the negation of a number"),
 dict(id="c32-constant-kept", property="C32", edits=[(L + "sin.rs", "        self.substitute(of, &to)\n", "        use crate::compute::derivative::Derivative;\n        if self.clone().derivative(of).map_or(false, |d| d.is_zero()) {\n            // constant\n            return Ok(LimitExpression::Normal(self));\n        }\n        self.substitute(of, &to)\n")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn sine_of_a_constant_in_disguise() {
    let x = Expression::new_variable("x");
    let u = (x.clone() - x.clone()) + Expression::from(2);
    let y = crate::math_op::sin::sin(u);
    let l = y.limit(x, Expression::from(3), 0).unwrap();
    assert!(!l.to_string().contains('x'), "{}", l);
}""", needs="the sine of something constant in which the variable occurs", breaks="the limit still contains the variable"),
 dict(id="c33-doubled", property="C33", edits=[(D + "mul.rs", "    } else if l.is_one() {\n", "    } else if r.is_operator() && (&l).to_smart_num().map_or(false, |v| v.to_i64() == Some(2)) {\n        r.clone() + r\n    } else if l.is_one() {\n")],
  demo=AGG + """
#[test]
fn twice_a_product() {
    fn size(e: &Expression) -> usize {
        1 + e.child.iter().map(size).sum::<usize>()
    }
    let v = |n: &str| Expression::new_variable(n);
    let e = Expression::from(2) * (v("a") * (v("b") * v("c")));
    let n = size(&e);
    assert!(size(&e.num_aggregate()) <= n);
}""", needs="twice an operation", breaks="the aggregate is larger than what was aggregated"),
 dict(id="c34-reciprocal", property="C34", edits=[(D + "div.rs", "    } else {\n        l / r\n", "    } else if l.is_one() && r.is_operator() {\n        use crate::math_op::pow::Pow;\n        r.pow(-1)\n    } else {\n        l / r\n")],
  demo=AGG + """
#[test]
fn reciprocal_of_a_sum() {
    let x = Expression::new_variable("x");
    let e = (Expression::from(1) / (x + Expression::from(1))).num_aggregate();
    assert!(!e.to_string().contains('^'), "{}", e);
}""", needs="the reciprocal of an operation", breaks="arithmetic becomes a power"),
 dict(id="c35-eager-rule", property="C35", edits=[(L + "div.rs", "        // l/r\n", "        // l/r\n        if order_try > 8 {\n            // plenty of retries: begin with the derivatives\n            l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;\n            r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;\n        }\n")],
  host="src/compute/limit/mod.rs", demo=LIM + """
#[test]
fn large_budget() {
    let x = Expression::new_variable("x");
    let y = || (Expression::new_variable("x") + Expression::from(1)) / (Expression::new_variable("x") * Expression::from(3) + Expression::from(1));
    let a = y().limit(x.clone(), Expression::from(2), 1).unwrap().to_string();
    let b = y().limit(x, Expression::from(2), 9).unwrap().to_string();
    assert_eq!(a, b);
}""", needs="a budget above eight", breaks="the limit of a determinate quotient changes with the budget"),
 dict(id="c10-borrowed-derivative", property="C10", edits=[(DM, """        let variable = Into::<Option<&Variable>>::into(to).ok_or(DerivativeError {
            err_src: to.clone(),
        })?;
        return self.derivative(variable);
""", """        if self.is_operand() && to.is_operator() {
            return Ok(Expression::zero());
        }
        let variable = Into::<Option<&Variable>>::into(to).ok_or(DerivativeError {
            err_src: to.clone(),
        })?;
        return self.derivative(variable);
""")],
  demo=DER + """
#[test]
fn leaf_by_an_operation() {
    let x = Expression::new_variable("x");
    let to = x.clone() + x.clone();
    assert!(x.derivative(&to).is_err());
}""", needs="the derivative of a leaf with respect to a borrowed operation", breaks="it is not rejected"),
]
for s in SEEDS:
    s["edits"] = [tuple(e[:3]) for e in s["edits"]]
