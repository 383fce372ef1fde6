PRE = "use crate::ast::tree::Expression;\n"
D = "src/compute/limit/rules/div.rs"
SEEDS = [
 dict(id="c19-late-round", property="C19", edits=[(D, "            let z = a / b;\n", "            let z = if used > 5 { b / a } else { a / b };\n")],
  host="src/compute/limit/mod.rs", demo=PRE + """use crate::compute::limit::LimitTry;
#[test]
fn seventh_derivatives() {
    let x = Expression::new_variable("x");
    let mut p = x.clone();
    for _ in 1..6 {
        p = p * x.clone();
    }
    let q = p.clone() * Expression::from(2);
    let y = p / q;
    assert_eq!(y.limit(x, Expression::zero(), 8).unwrap().to_string(), "1/2");
}""", needs="a quotient that stays indeterminate for six rounds of derivatives", breaks="the limit is that of the reciprocal"),
 dict(id="c06-high-odd-order", property="C06", edits=[("src/compute/taylor_expansion/partial_expansion.rs", "        for k in 0..=order {\n", "        for k in 0..=(if order > 12 { order - order % 2 } else { order }) {\n")],
  demo=PRE + """use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
#[test]
fn number_of_coefficients() {
    let x = Expression::new_variable("x");
    let y = x.clone() * x.clone();
    for order in 0..16_u64 {
        let t = y.clone().taylor_expansion(x.clone(), Expression::zero(), order).unwrap();
        assert_eq!(t.coefficient.len() as u64, order + 1);
    }
}""", needs="an odd order above 12", breaks="the last coefficient is missing"),
 dict(id="c12-zero-times-real", property="C12", edits=[("src/smart_num/val_holder.rs", "        if self.is_zero() || rhs.is_zero() {\n", "        if (self.is_zero() && !rhs.is_real()) || rhs.is_zero() {\n")],
  demo="""use crate::smart_num::SmartNum;
#[test]
fn zero_times_real_is_exact() {
    let z = SmartNum::from(0_i64) * SmartNum::from(2.5_f64);
    assert!(z.is_zero());
    assert_eq!(z.to_string(), "0");
}""", needs="an exact zero times a real, in this order", breaks="the product is a real zero, not exact zero"),
 dict(id="c09-split-name", property="C09", edits=[("src/ast/op/operand.rs", "AstOperand::Variable(var) => var.name.to_string()", "AstOperand::Variable(var) => {\n                let (head, tail) = var.name.split_at(1);\n                format!(\"{}{}\", head, tail)\n            }")],
  demo=PRE + """#[test]
fn names_of_any_letters() {
    assert_eq!(Expression::new_variable("\\u{03b8}").to_string(), "\\u{03b8}");
}""", needs="a variable whose name begins with a letter of more than one byte, or an empty one", breaks="printing it panics"),
]
