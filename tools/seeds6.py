AGG = "use crate::ast::tree::Expression;\nuse crate::compute::num_aggregate::NumAggregate;\n"
R = "src/compute/num_aggregate/rules/"
SEEDS = [
 dict(id="c36-power-of-e", property="C36", edits=[(R + "pow.rs", "        sub.pow(r)\n", "        // e^r = exp(r)\n        if sub.is_e() {\n            r.exp()\n        } else {\n            sub.pow(r)\n        }\n"),
    (R + "pow.rs", "use crate::math_op::pow::Pow;\n", "use crate::math_op::exp::Exp;\nuse crate::math_op::pow::Pow;\n")],
  demo=AGG + """use crate::math_op::{ln::ln, pow::Pow};
#[test]
fn aggregated_once_and_for_all() {
    let x = Expression::new_variable("x");
    let y = Expression::e().pow(ln(x)).num_aggregate();
    assert_eq!(y.clone().num_aggregate().to_string(), y.to_string());
}""", needs="e to the power of a logarithm", breaks="the result is exp(ln(x)), which another aggregation takes to x"),
 dict(id="c36-log-of-reciprocal", property="C36", edits=[(R + "ln.rs", "            _ => sub.ln(),\n        },\n    }", "            // ln(1/u) = -ln(u)\n            OperatorType::Div if sub.child[0].is_one() => -sub.child.pop().unwrap().ln(),\n            _ => sub.ln(),\n        },\n    }"),
    (R + "ln.rs", "    let mut sub = child.pop().unwrap().num_aggregate();\n", "    let mut sub: Expression = child.remove(0).num_aggregate();\n")],
  demo=AGG + """use crate::math_op::{exp::exp, ln::ln};
#[test]
fn aggregated_once_and_for_all() {
    let x = Expression::new_variable("x");
    let y = ln(Expression::one() / exp(x)).num_aggregate();
    assert_eq!(y.clone().num_aggregate().to_string(), y.to_string());
}""", needs="the logarithm of the reciprocal of an exponential", breaks="the result is -ln(exp(x)), which another aggregation takes to -x"),
]
