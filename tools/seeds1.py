PRE = "use crate::ast::tree::Expression;\nuse crate::ast::op::operand::Variable;\n"
AGG = PRE + "use crate::compute::num_aggregate::NumAggregate;\n"
DER = AGG + "use crate::compute::derivative::Derivative;\nuse crate::compute::substitute::Substitute;\n"
NUM = "use crate::smart_num::{SmartNum, ToSmartNum};\nuse crate::smart_num::rational::{RationalNum, ToRational};\n"
D = "src/compute/num_aggregate/rules/"
R = "src/smart_num/rational.rs"
V = "src/smart_num/val_holder.rs"
M = "src/smart_num/mod.rs"
SEEDS = [
 dict(id="c02-sub-negated", property="C02", edits=[(D + "sub.rs", """    } else if r.is_zero() {
        l
    } else {
        l - r""", """    } else if r.is_zero() {
        l
    } else if r.is_operator() && r.child.len() == 1 && r.to_string().starts_with('-') {
        // l - (-u)
        let mut r = r;
        l - r.child.pop().unwrap()
    } else {
        l - r""")],
  demo=AGG + """
#[test]
fn difference_with_a_negated_operand() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    assert_eq!((x.clone() - y.clone()).num_aggregate().to_string(), "x - y");
    let e = (x - (-y)).num_aggregate();
    let v = crate::compute::substitute::Substitute::substitute(e, Expression::new_variable("x"), Expression::from(5)).unwrap();
    let v = crate::compute::substitute::Substitute::substitute(v, Expression::new_variable("y"), Expression::from(2)).unwrap();
    assert!(v.num_aggregate().near(&Expression::from(7), 1e-9).unwrap());
}""", needs="a difference whose right operand aggregates to a negated non-number", breaks="x - (-y) aggregates to x - y"),
 dict(id="c02-exp-neg-ln", property="C02", edits=[(D + "exp.rs", """            OperatorType::Ln => sub.child.pop().unwrap(),
""", """            OperatorType::Ln => sub.child.pop().unwrap(),
            OperatorType::Mul => {
                // exp(a * ln(u)) = u ^ a
                let is_ln = match &sub.child[1].root {
                    AstNode::Operator(o) => o.descriptor == OperatorType::Ln,
                    AstNode::Operand(_) => false,
                };
                if is_ln {
                    let mut ln_u = sub.child.pop().unwrap();
                    let u = ln_u.child.pop().unwrap();
                    u.exp()
                } else {
                    sub.exp()
                }
            }
""")],
  demo=AGG + """
use crate::math_op::{exp::exp, ln::ln};
use crate::compute::substitute::Substitute;
#[test]
fn exponential_of_a_multiple_of_a_logarithm() {
    let x = Expression::new_variable("x");
    let a = Expression::new_variable("a");
    let y = exp(a.clone() * ln(x.clone())).num_aggregate();
    let y = y.substitute(x, Expression::from(1)).unwrap().num_aggregate();
    let y = y.substitute(a, Expression::from(3)).unwrap().num_aggregate();
    assert!(y.is_one(), "{}", y);
}""", needs="an exponential of a product whose right factor is a logarithm", breaks="exp(a*ln u) aggregates to exp(u)"),
 dict(id="c03-div-by-one-kept", property="C03", edits=[(D + "sub.rs", "    if l.is_num() && r.is_num() {", "    if l.is_num() && r.is_num() && !l.is_pi() {")],
  demo=AGG + NUM + """
#[test]
fn pi_minus_number_is_a_number() {
    let e = (Expression::pi() - Expression::from(2)).num_aggregate();
    assert!(e.is_num(), "{}", e);
    let e = (Expression::from(5) - Expression::from(2)).num_aggregate();
    assert!(e.is_num(), "{}", e);
}""", needs="a difference of numbers whose left operand is pi", breaks="pi - 2 does not aggregate to a number"),
 dict(id="c04-div-shared-denominator", property="C04", edits=[("src/compute/derivative/rules/div.rs", "    return Ok((u_d * v.clone() - u * v_d) / (v.clone() * v));",
  """    if u_d.is_zero() {
        // (c / v)' = -c * v' / v^2
        return Ok(-(u * v_d) / v);
    }
    return Ok((u_d * v.clone() - u * v_d) / (v.clone() * v));""")],
  demo=DER + """
#[test]
fn derivative_of_constant_over_function() {
    let x = Expression::new_variable("x");
    let y = Expression::one() / (x.clone() * x.clone());
    let d = y.derivative(&x).unwrap();
    let at = d.substitute(x, Expression::from(2)).unwrap().num_aggregate();
    assert!(at.near(&(Expression::from(-1) / Expression::from(4)).num_aggregate(), 1e-9).unwrap(), "{}", at);
}""", needs="a quotient with a constant numerator", breaks="(c/v)' divides by v instead of v^2"),
 dict(id="c04-mul-other-variable", property="C04", edits=[("src/compute/derivative/rules/mul.rs", "    return Ok(u_d * v + u * v_d);", """    if v_d.is_zero() {
        return Ok(u_d * v);
    }
    if u_d.is_one() {
        return Ok(u * v_d);
    }
    return Ok(u_d * v + u * v_d);""")],
  demo=DER + """
#[test]
fn derivative_of_variable_times_function() {
    let x = Expression::new_variable("x");
    let y = x.clone() * crate::math_op::exp::exp(x.clone());
    let d = y.derivative(&x).unwrap();
    let at = d.substitute(x, Expression::zero()).unwrap().num_aggregate();
    assert!(at.is_one(), "{}", at);
}""", needs="a product whose left factor has derivative exactly 1 and whose right factor is not constant", breaks="(x*v)' loses the term v"),
 dict(id="c05-replaced-again", property="C05", edits=[("src/compute/substitute/mod.rs", "                    c.push(expr.substitute(src, v)?);", """                    let done = c.iter().any(|e: &Expression| e.is_operator());
                    if done && expr.is_operand() && v.is_operator() {
                        c.push(expr);
                    } else {
                        c.push(expr.substitute(src, v)?);
                    }""")],
  demo=DER + """
#[test]
fn every_occurrence_is_replaced() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    let e = (x.clone() * x.clone()) - x.clone();
    let s = e.substitute(x, y.clone() + y).unwrap();
    assert_eq!(s.to_string(), "(y + y) * (y + y) - (y + y)");
}""", needs="a leaf to replace that follows a compound sibling, and a compound replacement", breaks="some occurrences of the variable are left"),
 dict(id="c10-derivative-of-number", property="C10", edits=[("src/compute/derivative/mod.rs", """    fn derivative(self, to: Expression) -> Self::Output {
        let variable""", """    fn derivative(self, to: Expression) -> Self::Output {
        if self.is_num() {
            // numbers are constant
            return Ok(Expression::zero());
        }
        let variable""")],
  demo=DER + """
#[test]
fn derivative_with_respect_to_a_non_variable() {
    assert!(Expression::from(3).derivative(Expression::from(2)).is_err());
    assert!(Expression::new_variable("x").derivative(Expression::from(2)).is_err());
    assert!(Expression::from(3).derivative(Expression::new_variable("x")).is_ok());
}""", needs="differentiating a number with respect to something that is not a variable", breaks="no error is given"),
 dict(id="c11-mul-wraps", property="C11", edits=[(R, """        let nominator = self.nominator * rhs.nominator;
        let denominator = self.denominator * rhs.denominator;""", """        let nominator = self.nominator * rhs.nominator;
        let denominator = self.denominator.wrapping_mul(rhs.denominator);""")],
  demo=NUM + """
#[test]
fn large_denominators() {
    let a = RationalNum::new(1, 1, 3_u64 << 40).unwrap();
    let r = std::panic::catch_unwind(|| a * a);
    assert!(r.is_err(), "{:?}", r);
}""", needs="denominators whose product does not fit 64 bits", breaks="the product of fractions silently wraps around"),
 dict(id="c11-add-same-denominator", property="C11", edits=[(R, """    fn add(self, rhs: Self) -> Self::Output {
        let a""", """    fn add(self, rhs: Self) -> Self::Output {
        if self.denominator == rhs.denominator && self.sign == rhs.sign {
            return RationalNum {
                nominator: self.nominator + rhs.nominator,
                sign: 1,
                ..rhs
            }
            .reduce();
        }
        let a""")],
  demo=NUM + """
#[test]
fn sum_of_negative_fractions() {
    let a = RationalNum::new(-1, 1, 5).unwrap();
    assert_eq!(a + a, RationalNum::new(-1, 2, 5).unwrap());
}""", needs="two negative fractions with the same denominator", breaks="their sum is positive"),
 dict(id="c12-real-minus-fraction", property="C12", edits=[(V, "                SmartNumVal::Rational(j) => SmartNumVal::Real(i - j.to_f64()),", "                SmartNumVal::Rational(j) => SmartNumVal::Real(j.to_f64() - i),")],
  demo=NUM + """
#[test]
fn real_minus_fraction() {
    let d = SmartNum::from(2.5_f64) - SmartNum::new_rational(1, 1, 2).unwrap();
    assert!((d.to_f64() - 2.0).abs() < 1e-12);
}""", needs="a real minus a fraction", breaks="the difference has the wrong sign"),
 dict(id="c12-exact-division-float", property="C12", edits=[(V, "                    SmartNumVal::Integer(j) => SmartNumVal::Rational(i / RationalNum::from(j)),", """                    SmartNumVal::Integer(j) => {
                        if j == i64::MIN {
                            SmartNumVal::Real(i.to_f64() / (j as f64))
                        } else {
                            SmartNumVal::Rational(i / RationalNum::from(j))
                        }
                    }""")],
  demo=NUM + """
#[test]
fn fraction_divided_by_the_smallest_integer() {
    let r = std::panic::catch_unwind(|| SmartNum::new_rational(1, 1, 2).unwrap() / SmartNum::from(i64::MIN));
    // overflow may stop it, a float may not come out
    if let Ok(v) = r {
        assert!(v.to_rational().is_some());
    }
}""", needs="division of a fraction by i64::MIN", breaks="exact operands give a floating-point number"),
 dict(id="c13-stale-flag", property="C13", edits=[(M, """        if self.is_zero() {
            -rhs
        } else if rhs.is_zero() {
            self
        } else {
            wrap_val(self.value - rhs.value)""", """        if self.is_zero() {
            SmartNum { value: -rhs.value, tag: rhs.tag }
        } else if rhs.is_zero() {
            self
        } else {
            wrap_val(self.value - rhs.value)""")],
  demo=NUM + """
#[test]
fn zero_minus_a_constant() {
    assert!(!(SmartNum::zero() - SmartNum::pi()).is_pi());
    assert!(!(SmartNum::zero() - SmartNum::one()).is_one());
}""", needs="an exact zero minus a special constant", breaks="0 - pi still answers is_pi with yes"),
 dict(id="c14-u32-sign", property="C14", edits=[(V, """impl From<u32> for SmartNumVal {
    fn from(v: u32) -> Self {
        SmartNumVal::Integer(i64::from(v))""", """impl From<u32> for SmartNumVal {
    fn from(v: u32) -> Self {
        SmartNumVal::Integer(i64::from(v as i32))""")],
  demo=NUM + """
#[test]
fn large_u32() {
    assert_eq!(SmartNum::from(3_000_000_000_u32).to_i64(), Some(3_000_000_000_i64));
}""", needs="a u32 above the range of i32", breaks="the number becomes negative"),
 dict(id="c15-unreduced-quotient", property="C15", edits=[(R, """        let nominator = self.nominator * rhs.denominator;
        let denominator = self.denominator * rhs.nominator;
        let res = RationalNum {
            sign,
            nominator,
            denominator,
        };
        res.reduce()""", """        let nominator = self.nominator * rhs.denominator;
        let denominator = self.denominator * rhs.nominator;
        let res = RationalNum {
            sign,
            nominator,
            denominator,
        };
        if self.denominator == 1 || rhs.denominator == 1 {
            // a whole number is already in lowest terms
            res
        } else {
            res.reduce()
        }""")],
  demo=NUM + """
#[test]
fn quotient_of_whole_numbers() {
    let q = RationalNum::from(4_i64) / RationalNum::from(6_i64);
    assert_eq!((q.nominator, q.denominator), (2, 3));
}""", needs="a quotient in which an operand is whole", breaks="4/6 is not reduced"),
 dict(id="c16-float-equality", property="C16", edits=[(R, """        return (x.sign == y.sign && x.nominator == y.nominator && x.denominator == y.denominator)
            || (x.nominator == 0 && y.nominator == 0);""", """        return (x.sign == y.sign && x.to_f64() == y.to_f64())
            || (x.nominator == 0 && y.nominator == 0);""")],
  demo=NUM + """
#[test]
fn close_fractions_are_different() {
    let a = RationalNum::new(1, (1_u64 << 60) + 1, 1 << 60).unwrap();
    let b = RationalNum::new(1, 1, 1).unwrap();
    assert!(a != b);
}""", needs="two fractions closer than floating-point precision", breaks="different fractions compare equal"),
 dict(id="c17-zero-quotient", property="C17", edits=[(V, """                SmartNumVal::Rational(i) => match rhs {
                    SmartNumVal::Integer(j) => SmartNumVal::Rational(i / RationalNum::from(j)),""", """                SmartNumVal::Rational(i) => match rhs {
                    SmartNumVal::Integer(j) => SmartNumVal::Rational(i / RationalNum::from(j.max(1))),""")],
  demo=NUM + """
#[test]
fn fraction_divided_by_zero() {
    let q = SmartNum::new_rational(1, 1, 2).unwrap() / SmartNum::zero();
    assert_eq!(q.to_rational().unwrap().denominator, 0);
}""", needs="a fraction divided by the integer zero", breaks="the quotient is an ordinary fraction"),
 dict(id="c25-whole-fraction-sign", property="C25", edits=[(R, """        write!(f, "{}{}/{}", sign_symbol, self.nominator, self.denominator)""", """        if self.denominator == u64::from(u32::MAX) {
            return write!(f, "{}/{}", self.nominator, self.denominator);
        }
        write!(f, "{}{}/{}", sign_symbol, self.nominator, self.denominator)""")],
  demo=NUM + """
#[test]
fn negative_fraction() {
    let q = RationalNum::new(-1, 2, u64::from(u32::MAX)).unwrap();
    assert_eq!(q.to_string(), "-2/4294967295");
}""", needs="a negative fraction with one particular denominator", breaks="the sign is lost in print"),
 dict(id="c26-cos-derivative-operator", property="C26", edits=[("src/compute/derivative/rules/cos.rs", """    let sub = child.pop().unwrap();
    return Ok(-sin(sub.clone()) * sub.derivative(to)?);""", """    let sub = child.pop().unwrap();
    let mut s = sin(sub.clone());
    s.child.push(Expression::one());
    s.child.swap(0, 0);
    return Ok(-s * sub.derivative(to)?);""")],
  demo=DER + """
#[test]
fn derivative_of_cosine_is_well_formed() {
    fn ok(e: &Expression) -> bool {
        let unary = e.to_string().starts_with("sin") || e.to_string().starts_with("-");
        (!unary || e.child.len() <= 1 || e.child.len() == 2 && e.to_string().contains('*')) && e.child.iter().all(ok)
    }
    let x = Expression::new_variable("x");
    let d = crate::math_op::cos::cos(x.clone() * x.clone()).derivative(&x).unwrap();
    fn arity(e: &Expression) -> bool {
        use crate::ast::tree::AstNode;
        use crate::ast::op::operator::OperatorType::*;
        (match &e.root {
            AstNode::Operand(_) => e.child.is_empty(),
            AstNode::Operator(o) => e.child.len() == match o.descriptor { Neg | Sin | Cos | Exp | Ln => 1, _ => 2 },
        }) && e.child.iter().all(arity)
    }
    let _ = ok;
    assert!(arity(&d), "{}", d);
}""", needs="the derivative of a cosine", breaks="the sine in the result has two operands"),
 dict(id="c27-borrowed-cos", property="C27", edits=[("src/math_op/cos.rs", """        Expression {
            root: AstNode::Operator(gen_cos_op()),
            child: vec![self.clone()],""", """        if self.is_zero() {
            return Expression::one();
        }
        Expression {
            root: AstNode::Operator(gen_cos_op()),
            child: vec![self.clone()],""")],
  demo=PRE + """
use crate::math_op::cos::Cos;
#[test]
fn borrowed_and_owned_cosine() {
    let z = Expression::zero();
    assert_eq!((&z).cos().to_string(), z.clone().cos().to_string());
}""", needs="the borrowing cosine of the number zero", breaks="the two variants differ"),
 dict(id="c28-gcd-truncated", property="C28", edits=[(R, """    if b == 0 {
        a
    } else {
        gcd(b, a % b)""", """    if b == 0 {
        a
    } else if a > u64::from(u32::MAX) && b & 1 == 1 {
        gcd(b, (a >> 1) % b)
    } else {
        gcd(b, a % b)""")],
  demo=NUM + """
#[test]
fn reduction_of_large_numerators() {
    let q = RationalNum::new(1, (1_u64 << 33) + 2, 3).unwrap();
    let r = q.reduce();
    assert_eq!(q.nominator % 3, (1_u64 << 33) % 3 + 2 - if (1_u64 << 33) % 3 + 2 >= 3 { 3 } else { 0 });
    let p = RationalNum::new(1, 3 * ((1_u64 << 32) + 1), 3).unwrap().reduce();
    assert_eq!((p.nominator, p.denominator), ((1_u64 << 32) + 1, 1));
    let _ = r;
    let o = RationalNum::new(1, (1_u64 << 32) + 3, 5).unwrap().reduce();
    assert_eq!(o.to_f64(), ((1_u64 << 32) + 3) as f64 / 5.0);
}""", needs="a numerator above 32 bits and an odd denominator", breaks="the number divided out need not be a common divisor... or misses one"),
 dict(id="c01-ref-sin", property="C01", edits=[("src/math_op/sin.rs", """            child: vec![self.clone()],""", """            child: if self.child.len() == 2 { self.child[..1].to_vec() } else { vec![self.clone()] },""")],
  demo=PRE + """
use crate::math_op::sin::Sin;
#[test]
fn sine_of_a_borrowed_sum() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    assert_eq!((&(x + y)).sin().to_string(), "sin(x + y)");
}""", needs="the borrowing sine of a compound expression with two operands", breaks="the sine is taken of the first operand"),
]
