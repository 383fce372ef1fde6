V = "src/smart_num/val_holder.rs"
R = "src/smart_num/rational.rs"
SEEDS = [
 dict(id="c12-fraction-zero", property="C12", host="src/smart_num/mod.rs", edits=[(V, "if self.is_zero() || rhs.is_zero() {", "if self.is_zero() || matches!(rhs, SmartNumVal::Integer(0)) {")],
  demo="""use super::val_holder::SmartNumVal;
#[test]
fn exact_zero_factor() {
    let r = SmartNumVal::from(0.5_f64) * SmartNumVal::new_rational(-1, 0, 7).unwrap();
    assert!(!matches!(r, SmartNumVal::Real(_)), "{:?}", r);
}""", needs="a floating-point number times zero held as a fraction", breaks="the product is floating-point although a factor is an exact zero"),
 dict(id="c15-sign-of-zero", property="C15", host="src/smart_num/mod.rs", edits=[(R, "sign: if v == 0 { 1_i64 } else { v.signum() },", "sign: v.signum(),")],
  demo="""use super::rational::RationalNum;
#[test]
fn zero_has_a_sign() {
    assert!([1, -1].contains(&RationalNum::from(0_i64).sign));
}""", needs="the integer zero made a fraction", breaks="the sign is 0"),
]
