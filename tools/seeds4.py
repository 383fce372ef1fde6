PRE = "use crate::ast::tree::Expression;\n"
AGG = PRE + "use crate::compute::num_aggregate::NumAggregate;\n"
OP = "src/ast/op/operator.rs"
OD = "src/ast/op/operand.rs"
V = "src/smart_num/val_holder.rs"
LE = "src/compute/limit/limit_expression.rs"
T = "src/compute/taylor_expansion/partial_expansion.rs"
TR = "src/ast/tree.rs"
SEEDS = [
 dict(id="c31-same-symbol", property="C31", edits=[(OP, "        self.descriptor == other.descriptor\n", "        self.symbol == other.symbol\n")],
  demo=PRE + """use crate::ast::tree::AstNode;
#[test]
fn negation_is_not_subtraction() {
    let x = Expression::new_variable("x");
    let y = Expression::new_variable("y");
    let a = -x.clone();
    let b = x - y;
    match (&a.root, &b.root) {
        (AstNode::Operator(p), AstNode::Operator(q)) => assert!(p != q),
        _ => panic!(),
    }
}""", needs="comparing a negation with a subtraction, which share their symbol", breaks="two different operations compare equal"),
 dict(id="c31-variable-key", property="C31", edits=[(OD, "#[derive(Debug, Clone)]\npub struct Variable {\n    pub name: String,\n}\n", """#[derive(Debug)]
pub struct Variable {
    pub name: String,
}

impl Clone for Variable {
    fn clone(&self) -> Self {
        Variable::new_variable(self.name.trim())
    }
}
""")],
  demo=PRE + """#[test]
fn copy_keeps_the_name() {
    let x = Expression::new_variable("x ");
    assert_eq!(x.clone().to_string(), x.to_string());
}""", needs="a variable whose name begins or ends in a blank", breaks="a copy of a variable has another name"),
 dict(id="c31-real-or-broken", property="C31", edits=[(V, """            SmartNumVal::Integer(_) => false,
            SmartNumVal::Rational(_) => false,
            SmartNumVal::Real(_) => true,
""", """            SmartNumVal::Integer(_) => false,
            SmartNumVal::Rational(v) => v.denominator == 0,
            SmartNumVal::Real(_) => true,
""")],
  host="src/smart_num/mod.rs", demo="""use super::val_holder::SmartNumVal;
#[test]
fn fraction_without_value_is_no_real() {
    let q = SmartNumVal::Integer(1) / SmartNumVal::Integer(0);
    assert!(q.is_rational());
    assert!(!q.is_real());
}""", needs="a fraction with denominator zero", breaks="a fraction says it is a real number"),
 dict(id="c31-compact-copy", property="C31", edits=[(T, "#[derive(Debug, Clone)]\npub struct PartialExpansion {", "#[derive(Debug)]\npub struct PartialExpansion {"),
   (T, "#[derive(Debug)]\npub struct TaylorExpansionError", """impl Clone for PartialExpansion {
    fn clone(&self) -> Self {
        let used = self.coefficient.iter().rposition(|c| !c.is_zero()).map_or(0, |k| k + 1);
        PartialExpansion {
            order: self.order,
            of: self.of.clone(),
            at: self.at.clone(),
            coefficient: self.coefficient.iter().take(used).cloned().collect(),
            residual: self.residual.clone(),
        }
    }
}

#[derive(Debug)]
pub struct TaylorExpansionError""")],
  demo=PRE + """use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
#[test]
fn copy_has_all_coefficients() {
    let x = Expression::new_variable("x");
    let e = x.clone().taylor_expansion(x, Expression::from(0), 3).unwrap();
    assert_eq!(e.clone().coefficient.len(), e.coefficient.len());
}""", needs="an expansion whose last coefficients are zero", breaks="the copy of an expansion has fewer coefficients"),
 dict(id="c31-rank-order", property="C31", edits=[(OP, "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]\n", "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd)]\n"),
   (OP, "#[derive(Debug, Clone)]\npub struct AstOperator", """impl Ord for OperatorType {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        // functions come last, whichever they are
        let rank = |t: &OperatorType| match t {
            OperatorType::Neg => 0,
            OperatorType::Add => 1,
            OperatorType::Sub => 2,
            OperatorType::Mul => 3,
            OperatorType::Div => 4,
            OperatorType::Pow => 5,
            _ => 6,
        };
        rank(self).cmp(&rank(other))
    }
}

#[derive(Debug, Clone)]
pub struct AstOperator""")],
  demo="""use crate::ast::op::operator::OperatorType;
use std::collections::BTreeSet;
#[test]
fn sine_and_cosine_are_two() {
    let mut s = BTreeSet::new();
    s.insert(OperatorType::Sin);
    s.insert(OperatorType::Cos);
    assert_eq!(s.len(), 2);
}""", needs="ordering two functions", breaks="the order calls different operations equal"),
]
