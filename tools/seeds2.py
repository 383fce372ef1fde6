PRE = "use crate::ast::tree::Expression;\n"
AGG = PRE + "use crate::compute::num_aggregate::NumAggregate;\n"
DER = AGG + "use crate::compute::derivative::Derivative;\nuse crate::compute::substitute::Substitute;\n"
TAY = AGG + "use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};\n"
LIM = "use crate::ast::tree::Expression;\nuse super::limit_expression::{LimitExpression, NoValidLimitFound};\nuse super::LimitTry;\n"
D = "src/compute/num_aggregate/rules/"
L = "src/compute/limit/rules/"
LM = "src/compute/limit/mod.rs"
LE = "src/compute/limit/limit_expression.rs"
T = "src/compute/taylor_expansion/partial_expansion.rs"
DM = "src/compute/derivative/mod.rs"
S = "src/compute/substitute/mod.rs"
TR = "src/ast/tree.rs"
SEEDS = [
 dict(id="c06-factorial-capped", property="C06", edits=[(T, "SmartNum::from(k.max(1_u64))", "SmartNum::from(k.clamp(1_u64, 12_u64))")],
  demo=TAY + """
#[test]
fn coefficient_of_order_thirteen() {
    let x = Expression::new_variable("x");
    let e = crate::math_op::exp::exp(x.clone()).taylor_expansion(x, Expression::zero(), 13).unwrap();
    let c = |i: usize| crate::smart_num::ToSmartNum::to_smart_num(&e.coefficient[i]).unwrap().to_f64();
    assert!((c(12) * 479001600.0 - 1.0).abs() < 1e-9);
    assert!((c(13) * 6227020800.0 - 1.0).abs() < 1e-9);
}""", needs="an expansion of order 13 or more", breaks="coefficients from order 13 on are divided by the wrong factorial"),
 dict(id="c06-two-zeros-stop", property="C06", edits=[(T, "            residual = residual.derivative(of).map_err(|_| TaylorExpansionError {", """            if k > 0 && coefficient[k as usize - 1].is_zero() && coefficient[k as usize].is_zero() {
                // nothing left to expand
                continue;
            }
            residual = residual.derivative(of).map_err(|_| TaylorExpansionError {""")],
  demo=TAY + """
#[test]
fn cube_at_zero() {
    let x = Expression::new_variable("x");
    let e = (x.clone() * x.clone() * x.clone()).taylor_expansion(x, Expression::zero(), 3).unwrap();
    assert!(e.coefficient[3].is_one(), "{}", e.coefficient[3]);
}""", needs="an expansion with two vanishing coefficients in a row before one that does not vanish", breaks="all later coefficients and the residual are wrong"),
 dict(id="c07-negative-point", property="C07", edits=[(T, "let b = (self.of.clone() - self.at.clone()).num_aggregate();", """let negative = crate::smart_num::ToSmartNum::to_smart_num(&self.at).map_or(false, |v| v.sign() < 0);
        let b = if negative {
            self.of.clone() + self.at.clone()
        } else {
            self.of.clone() - self.at.clone()
        }
        .num_aggregate();""")],
  demo=TAY + """
#[test]
fn expansion_at_a_negative_point() {
    let x = Expression::new_variable("x");
    let e = crate::math_op::exp::exp(x.clone()).taylor_expansion(x, Expression::from(-2), 1).unwrap();
    let text = e.to_string();
    assert!(text.contains("x - (-2)") || text.contains("x + 2") || text.contains("x - -2"), "{}", text);
}""", needs="an expansion at a negative number", breaks="the displayed powers are of x + a instead of x - a"),
 dict(id="c07-power-wraps", property="C07", edits=[(T, "for (idx, term) in self.coefficient.iter().enumerate() {", "for (term, idx) in self.coefficient.iter().zip((0..16_u8).cycle()) {")],
  demo=TAY + """
#[test]
fn seventeenth_power() {
    let x = Expression::new_variable("x");
    let mut coefficient = std::collections::VecDeque::new();
    for _ in 0..16 {
        coefficient.push_back(Expression::zero());
    }
    coefficient.push_back(Expression::from(3));
    let e = PartialExpansion { order: 16, of: x.clone(), at: Expression::zero(), coefficient, residual: x };
    assert!(e.to_string().starts_with("3 * x ^ 16 +"), "{}", e);
}""", needs="an expansion of order 16 or more", breaks="the displayed power of the 17th term starts again at 0"),
 dict(id="c08-negated-base", property="C08", edits=[(TR, "                if op.priority < upper_priority {", "                if op.priority < upper_priority && (op.priority > 1 || self.child[0].is_operator() || upper_priority == 3) {")],
  demo=DER + """
use crate::math_op::pow::Pow;
#[test]
fn power_of_a_negated_variable() {
    let x = Expression::new_variable("x");
    let a = (-x.clone()).pow(2);
    let b = -(x.pow(2));
    assert_ne!(a.to_string(), b.to_string());
}""", needs="a negated variable as an operand of a power or quotient", breaks="(-x)^2 is displayed as -x ^ 2"),
 dict(id="c09-exp-of-negation", property="C09", edits=[(D + "exp.rs", "            OperatorType::Ln => sub.child.pop().unwrap(),\n", """            OperatorType::Ln => sub.child.pop().unwrap(),
            // exp(u + ln(v)) = exp(u) * v
            OperatorType::Add | OperatorType::Neg if sub.child[1].is_ln() => {
                let mut v = sub.child.pop().unwrap();
                let u = sub.child.pop().unwrap();
                u.exp() * v.child.pop().unwrap()
            }
"""), (D + "exp.rs", "pub(crate) fn exp_eval_rule(", """impl Expression {
    fn is_ln(&self) -> bool {
        match &self.root {
            AstNode::Operator(o) => o.descriptor == OperatorType::Ln,
            AstNode::Operand(_) => false,
        }
    }
}

pub(crate) fn exp_eval_rule("""), (D + "exp.rs", "    match &sub.root {\n        AstNode::Operand(operand) => match operand {\n            AstOperand::Variable(_) => sub.exp(),", "    match sub.root.clone() {\n        AstNode::Operand(operand) => match operand {\n            AstOperand::Variable(_) => sub.exp(),")],
  demo=DER + """
#[test]
fn exponential_of_a_negated_variable() {
    let x = Expression::new_variable("x");
    let y = crate::math_op::exp::exp(-x).num_aggregate();
    assert_eq!(y.to_string(), "exp(-x)");
}""", needs="the exponential of a negated non-number", breaks="aggregation panics reading a second operand of the negation"),
 dict(id="c18-infinity-times-bounded", property="C18", host=LM, edits=[(LE, "                LimitExpression::BoundedFluctuation => Err(NoValidLimitFound {}), // x * sinx should be infinity of unknown?", "                LimitExpression::BoundedFluctuation => Ok(LimitExpression::Infinity),")],
  demo=LIM + """
#[test]
fn infinite_times_fluctuating_is_indeterminate() {
    assert!((LimitExpression::Infinity * LimitExpression::BoundedFluctuation).is_err());
}""", needs="the product of an infinite and a fluctuating limit, in that order", breaks="an indeterminate product is reported as infinite"),
 dict(id="c18-bounded-by-zero", property="C18", host=LM, edits=[(LE, """                LimitExpression::Normal(r) => {
                    if r.is_zero() {
                        Err(NoValidLimitFound {})
                    } else {
                        Ok(LimitExpression::BoundedFluctuation)
                    }
                }""", """                LimitExpression::Normal(_) => Ok(LimitExpression::BoundedFluctuation),""")],
  demo=LIM + """
#[test]
fn fluctuating_over_zero_is_indeterminate() {
    let z = LimitExpression::BoundedFluctuation / LimitExpression::Normal(Expression::zero());
    assert!(z.is_err());
}""", needs="a fluctuating limit divided by the number zero given as an ordinary limit", breaks="a quotient by zero is reported as fluctuating"),
 dict(id="c19-denominator-once", property="C19", host=LM, edits=[(L + "div.rs", "            r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;", """            if used == 0 || r.is_operand() {
                r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
            }""")],
  demo=LIM + """
#[test]
fn two_steps_of_lhopital() {
    let x = Expression::new_variable("x");
    let y = (x.clone() * x.clone()) / (x.clone() * x.clone());
    let z = y.limit(x, Expression::zero(), 2).unwrap();
    assert_eq!(z.to_string(), "1");
}""", needs="a quotient that needs two steps of l'Hopital's rule with a composite denominator", breaks="the second step differentiates only the numerator"),
 dict(id="c19-product-swapped", property="C19", host=LM, edits=[(L + "mul.rs", "let z = l_ / (Expression::one() / r_);", "let z = r_ / (Expression::one() / l_);"),
   (L + "mul.rs", "let z = r_ / (Expression::one() / l_);\n                return z.limit(of, to, order_left);\n            } else {", "let z = r_.clone() / (Expression::one() / r_);\n                return z.limit(of, to, order_left);\n            } else {")],
  demo=LIM + """
#[test]
fn product_of_infinite_and_infinitesimal() {
    let x = Expression::new_variable("x");
    let y = (Expression::one() / x.clone()) * (x.clone() * x.clone());
    let z = y.limit(x, Expression::zero(), 0);
    assert!(z.is_err());
    let x = Expression::new_variable("x");
    let y = (Expression::one() / x.clone()) * x.clone();
    match y.limit(x, Expression::zero(), 3) {
        Ok(LimitExpression::Infinitesimal) | Ok(LimitExpression::Infinity) => panic!("x / x does not tend to 0 or infinity"),
        _ => {}
    }
}""", needs="an infinite left factor and an infinitesimal right factor", breaks="the product is rewritten to the square of the right factor"),
 dict(id="c20-small-point", property="C20", host=LM, edits=[(LM, "                        if to.is_zero() {", "                        if to.near(&Expression::zero(), 1e-6).unwrap_or(false) {")],
  demo=LIM + """
#[test]
fn limit_at_a_small_number() {
    let x = Expression::new_variable("x");
    match x.clone().limit(x, Expression::from(1e-7), 1).unwrap() {
        LimitExpression::Normal(v) => assert!(v.near(&Expression::from(1e-7), 1e-12).unwrap()),
        z => panic!("{}", z),
    }
}""", needs="a limit point that is a number close to zero but not zero", breaks="the limit of the variable is reported as infinitesimal instead of the point"),
 dict(id="c20-name-prefix", property="C20", host=LM, edits=[(LM, "                    if variable.name == of.name {", "                    if variable.name.starts_with(&of.name) {")],
  demo=LIM + """
#[test]
fn limit_of_another_variable() {
    let x = Expression::new_variable("x");
    let x1 = Expression::new_variable("x1");
    assert_eq!(x1.limit(x, Expression::zero(), 1).unwrap().to_string(), "x1");
}""", needs="two variables one of whose names starts with the other's", breaks="the limit of x1 for x -> 0 is 0"),
 dict(id="c21-cos-at-zero", property="C21", host=LM, edits=[(L + "cos.rs", "        self.substitute(of, &to)\n", """        if to.is_zero() {
            return Ok(LimitExpression::Normal(Expression::one()));
        }
        self.substitute(of, &to)
""")],
  demo=LIM + """
#[test]
fn limit_of_cosine_of_a_sum() {
    let x = Expression::new_variable("x");
    let y = crate::math_op::cos::cos(x.clone() + Expression::one());
    assert_eq!(y.limit(x, Expression::zero(), 1).unwrap().to_string(), "cos1");
}""", needs="the cosine of something that does not vanish at the limit point 0", breaks="its limit is reported as 1"),
 dict(id="c22-add-of-negation", property="C22", host=LM, edits=[(L + "add.rs", "        let r_ = self.child.pop().unwrap();\n        let l_ = self.child.pop().unwrap();\n", """        let mut r_ = self.child.pop().unwrap();
        let l_ = self.child.pop().unwrap();
        let negated = match &r_.root {
            crate::ast::tree::AstNode::Operator(o) => o.descriptor == crate::ast::op::operator::OperatorType::Neg,
            crate::ast::tree::AstNode::Operand(_) => false,
        };
        if negated {
            return (l_ - r_.child.pop().unwrap()).limit(of, to, order_try);
        }
""")],
  demo=LIM + """
#[test]
fn limit_of_a_difference() {
    let x = Expression::new_variable("x");
    let y = x.clone() - Expression::from(3);
    assert!(y.limit(x, Expression::from(5), 1).is_ok());
}""", needs="a difference (or a sum with a negated right operand)", breaks="sum and difference are rewritten into each other without end"),
 dict(id="c23-replacement-replaced", property="C23", edits=[(S, "                        v.clone().into()\n", "                        if v.is_operator() {\n                            v.clone().substitute(src, v)?\n                        } else {\n                            v.clone().into()\n                        }\n")],
  demo=DER + """
#[test]
fn shift_of_a_variable() {
    let x = Expression::new_variable("x");
    let y = (x.clone() * Expression::from(2)).substitute(&x, &(x.clone() + Expression::one())).unwrap();
    assert_eq!(y.to_string(), "(x + 1) * 2");
}""", needs="a replacement that is an operation and mentions the replaced variable", breaks="substitution never ends"),
 dict(id="c24-derivative-cache", property="C24", edits=[(DM, "        .num_aggregate();\n        Ok(result)", """        .num_aggregate();
        if let Some(text) = text {
            DONE.lock().unwrap().insert(text, result.to_string());
        }
        Ok(result)"""), (DM, "        let result = match self.root {\n            AstNode::Operand(operand) => match operand {", """        let text = if self.is_operator() && self.to_string().starts_with("ln") {
            Some(self.to_string())
        } else {
            None
        };
        if let Some(text) = &text {
            // the same derivative again
            if DONE.lock().unwrap().get(text).map_or(false, |r| r == "0") {
                return Ok(Expression::zero());
            }
        }
        let result = match self.root {
            AstNode::Operand(operand) => match operand {"""), (DM, "use super::num_aggregate::NumAggregate;\n", "use super::num_aggregate::NumAggregate;\n\nstatic DONE: std::sync::Mutex<std::collections::BTreeMap<String, String>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n")],
  demo=DER + """
#[test]
fn derivatives_in_two_variables() {
    let u = Expression::new_variable("u_c24");
    let v = Expression::new_variable("v_c24");
    let y = crate::math_op::ln::ln(u.clone());
    assert!(y.clone().derivative(&v).unwrap().is_zero());
    assert!(!y.derivative(&u).unwrap().is_zero());
}""", needs="the derivative of one expression in a variable it does not contain, and later in one it does", breaks="the remembered zero is returned for the other variable"),
 dict(id="c26-one-operand-quotient", property="C26", edits=[(D + "div.rs", "        l / r\n", "        // l / 1 = l\n        let whole = r.is_one();\n        let mut z = l / r;\n        if whole {\n            z.child.pop();\n        }\n        z\n")],
  demo=DER + """
#[test]
fn derivative_of_an_aggregated_quotient() {
    let x = Expression::new_variable("x");
    let y = (x.clone() / Expression::one()).num_aggregate();
    assert!(y.derivative(&x).unwrap().near(&Expression::from(1), 1e-9).unwrap());
}""", needs="the aggregation of a quotient by one, used again", breaks="the result is a quotient with one operand, which later operations cannot read"),
 dict(id="c29-rejected-aggregated", property="C29", edits=[(DM, """        let variable = Into::<Option<&Variable>>::into(to).ok_or(DerivativeError {
            err_src: to.clone(),
        })?;""", """        let variable = Into::<Option<&Variable>>::into(to).ok_or(DerivativeError {
            err_src: to.clone().num_aggregate(),
        })?;""")],
  demo=DER + """
#[test]
fn error_names_what_was_rejected() {
    let x = Expression::new_variable("x");
    let e = x.derivative(&(Expression::from(1) + Expression::from(2))).unwrap_err();
    assert_eq!(e.to_string(), "1 + 2 cannot be used as a variable");
}""", needs="a borrowed non-variable that aggregation changes", breaks="the error names another expression than the one rejected"),
 dict(id="c29-whole-limit", property="C29", host=LM, edits=[(LE, '            LimitExpression::Normal(r) => write!(f, "{}", r),', '            LimitExpression::Normal(r) if r.is_num() && r.child.is_empty() && r.to_string().len() > 12 => write!(f, "{:.12}", r.to_string()),\n            LimitExpression::Normal(r) => write!(f, "{}", r),'), (LE, '            LimitExpression::Infinity => write!(f, "infinity"),', '            LimitExpression::Infinity => f.write_str("infinity"),')],
  demo=LIM + """
#[test]
fn text_of_a_large_limit() {
    let v = Expression::from(1234567890123456_i64);
    assert_eq!(LimitExpression::Normal(v).to_string(), "1234567890123456");
}""", needs="an ordinary limit whose text has more than 12 characters", breaks="the text is cut off"),
 dict(id="c30-product-with-one", property="C30", edits=[(D + "mul.rs", "    } else if r.is_one() {\n", "    } else if r.is_one() && l.child.len() < 2 {\n")],
  demo=DER + """
#[test]
fn product_with_one() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    assert_eq!(((x + y) * Expression::one()).num_aggregate().to_string(), "x + y");
}""", needs="a binary operation times 1", breaks="the factor 1 is left in the result"),
 dict(id="c32-bare-variable-kept", property="C32", edits=[(T, """            let cur = residual
                .clone()
                .substitute(of, at)
""", """            let cur = if k == order && residual.is_operand() {
                // nothing left to substitute in
                Ok(residual.clone())
            } else {
                residual.clone().substitute(of, at)
            }
""")],
  demo=TAY + """
#[test]
fn expansion_whose_last_derivative_is_the_variable() {
    let x = Expression::new_variable("x");
    let e = x.clone().taylor_expansion(x, Expression::from(7), 0).unwrap();
    assert!(e.coefficient[0].near(&Expression::from(7), 1e-9).unwrap());
}""", needs="an expansion whose derivative of the highest order is the bare variable", breaks="the last coefficient still contains the expansion variable"),
 dict(id="c33-distributed", property="C33", edits=[(D + "mul.rs", "    } else {\n        l * r\n    }", """    } else if l.is_num() && r.child.len() == 2 && r.root_is_add() {
        let mut r = r;
        let b = r.child.pop().unwrap();
        let a = r.child.pop().unwrap();
        l.clone() * a + l * b
    } else {
        l * r
    }"""), (D + "mul.rs", "pub(crate) fn mul_eval_rule(", """impl Expression {
    fn root_is_add(&self) -> bool {
        match &self.root {
            crate::ast::tree::AstNode::Operator(o) => o.descriptor == crate::ast::op::operator::OperatorType::Add,
            crate::ast::tree::AstNode::Operand(_) => false,
        }
    }
}

pub(crate) fn mul_eval_rule(""")],
  demo=DER + """
fn size(e: &Expression) -> usize {
    1 + e.child.iter().map(size).sum::<usize>()
}
#[test]
fn aggregating_a_multiple_of_a_sum() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    let e = Expression::from(3) * (x + y);
    let n = size(&e);
    assert!(size(&e.num_aggregate()) <= n);
}""", needs="a number times a sum of non-numbers", breaks="the product is multiplied out and gets larger"),
 dict(id="c34-squared-denominator", property="C34", edits=[("src/compute/derivative/rules/div.rs", "(v.clone() * v)", "if v.is_operator() { crate::math_op::pow::Pow::pow(v, 2) } else { v.clone() * v }")],
  demo=DER + """
fn arithmetic(e: &Expression) -> bool {
    !e.to_string().contains('^') && e.child.iter().all(arithmetic)
}
#[test]
fn derivative_of_a_quotient_of_sums() {
    let x = Expression::new_variable("x");
    let y = x.clone() / (x.clone() + Expression::from(2));
    assert!(arithmetic(&y.derivative(&x).unwrap()));
}""", needs="the derivative of a quotient with a composite denominator", breaks="the result has a power, which aggregation does not evaluate to a number"),
 dict(id="c35-confirmed-zero", property="C35", host=LM, edits=[(L + "div.rs", "            if z.is_ok() {\n", "            // a zero is looked at again while there are retries to spare\n            let zero = matches!(z, Ok(LimitExpression::Infinitesimal));\n            if z.is_ok() && !(zero && used + 1 < order_try) {\n")],
  demo=LIM + """
#[test]
fn more_retries_find_the_same_limit() {
    for budget in 0..4 {
        let x = Expression::new_variable("x");
        let y = x.clone() / crate::math_op::cos::cos(x.clone());
        assert_eq!(y.limit(x, Expression::zero(), budget).unwrap().to_string(), "0");
    }
}""", needs="a quotient with limit zero and a budget of two or more", breaks="the quotient of derivatives is returned although the quotient was determinate"),
 dict(id="c10-variable-inside", property="C10", edits=[(T, "        let of_raw = Into::<Option<Variable>>::into(of.clone());\n", """        let of_raw = match of.child.len() {
            1 => Into::<Option<Variable>>::into(of.child[0].clone()),
            _ => Into::<Option<Variable>>::into(of.clone()),
        };
""")],
  demo=TAY + """
#[test]
fn expansion_in_a_negated_variable() {
    let x = Expression::new_variable("x");
    assert!((x.clone() * x.clone()).taylor_expansion(-x, Expression::zero(), 1).is_err());
}""", needs="an owned operation with one operand that is a variable, given as the variable", breaks="the expansion in -x is accepted and made in x"),
]
