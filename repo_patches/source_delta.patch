From 7ba1bd464a0bbc6ba044a220d2481f6090073bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 01/17] fix: cos(pi) aggregates to -1, not 1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From a1bd94f5cda3c2fc747d2d4f581f374da93d13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 02/17] fix: aggregate powers by the rules of powers

The rule was a copy of the one for exp/ln: 0^r gave 1, 1^r gave r and
ln(u)^r gave u.
---
 src/compute/num_aggregate/rules/pow.rs | 32 +++++++++-----------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..2188c19 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,18 @@
-use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
-use crate::ast::tree::{AstNode, Expression};
+use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
+use crate::smart_num::ToSmartNum;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
-        AstNode::Operand(operand) => match operand {
-            AstOperand::Variable(_) => sub.pow(r),
-            AstOperand::Num(v) => {
-                if v.is_zero() {
-                    Expression::from(1_i64)
-                } else if v.is_one() {
-                    r
-                } else {
-                    sub.pow(r)
-                }
-            }
-        },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+    let sub = child.pop().unwrap().num_aggregate();
+    if r.is_zero() || sub.is_one() {
+        Expression::one()
+    } else if r.is_one() {
+        sub
+    } else if sub.is_zero() && (&r).to_smart_num().map_or(false, |v| v.sign() > 0) {
+        Expression::zero()
+    } else {
+        sub.pow(r)
     }
 }
-- 
2.43.0


From b32b637cc25ae0982b6d462b821892c467a5bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 03/17] fix: 0/0 is not the number 0

---
 src/smart_num/val_holder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..9d49d5a 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -278,7 +278,7 @@ impl Div for SmartNumVal {
     type Output = SmartNumVal;
 
     fn div(self, rhs: Self) -> Self::Output {
-        if self.is_zero() {
+        if self.is_zero() && !rhs.is_zero() {
             SmartNumVal::Integer(0_i64)
         } else {
             match self {
-- 
2.43.0


From cb729eef9ae18283371fb4c295a3005d4dbbbf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 04/17] fix: u64 values above i64::MAX keep their value

---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 9d49d5a..1888763 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -194,7 +194,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        match i64::try_from(v) {
+            Ok(i) => SmartNumVal::Integer(i),
+            Err(_) => SmartNumVal::Rational(RationalNum::from(v)),
+        }
     }
 }
 
-- 
2.43.0


From 391c47c936f09fc93d070110c05db69d9fb4cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 05/17] fix: rational + and - do not wrap around silently

The cross products were cast from u64 to i64, so a product above i64::MAX
turned into a wrong (negative) number even in checked builds.
---
 src/smart_num/rational.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..a35c069 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -94,11 +94,11 @@ impl Add for RationalNum {
     type Output = RationalNum;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = (self.nominator as i128) * (rhs.denominator as i128) * (self.sign as i128);
+        let b = (self.denominator as i128) * (rhs.nominator as i128) * (rhs.sign as i128);
         let s = a + b;
-        let sign = s.signum();
-        let nominator = s.abs() as u64;
+        let sign = s.signum() as i64;
+        let nominator = u64::try_from(s.abs()).expect("rational number overflow");
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
             sign,
@@ -113,11 +113,11 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
+        let a = (self.nominator as i128) * (rhs.denominator as i128) * (self.sign as i128);
+        let b = (self.denominator as i128) * (rhs.nominator as i128) * (rhs.sign as i128);
         let s = a - b;
-        let sign = s.signum();
-        let nominator = s.abs() as u64;
+        let sign = s.signum() as i64;
+        let nominator = u64::try_from(s.abs()).expect("rational number overflow");
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
             sign,
-- 
2.43.0


From 651742f67bbae9f638e939ffec349430a538f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 06/17] fix: a rational sum or difference of zero keeps sign 1

The constructor only admits the signs 1 and -1; a sign of 0 is displayed
as "-0/1".
---
 src/smart_num/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index a35c069..6849fe5 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -97,7 +97,7 @@ impl Add for RationalNum {
         let a = (self.nominator as i128) * (rhs.denominator as i128) * (self.sign as i128);
         let b = (self.denominator as i128) * (rhs.nominator as i128) * (rhs.sign as i128);
         let s = a + b;
-        let sign = s.signum() as i64;
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = u64::try_from(s.abs()).expect("rational number overflow");
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
@@ -116,7 +116,7 @@ impl Sub for RationalNum {
         let a = (self.nominator as i128) * (rhs.denominator as i128) * (self.sign as i128);
         let b = (self.denominator as i128) * (rhs.nominator as i128) * (rhs.sign as i128);
         let s = a - b;
-        let sign = s.signum() as i64;
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = u64::try_from(s.abs()).expect("rational number overflow");
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
-- 
2.43.0


From f0c39d4d2b147a268e969962910cc1bcd90a8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 07/17] fix: parenthesize operands whose rendering would be
 misread

-(x + y) was rendered as "-x + y", x - (y - z) as "x - y - z", x / (y / z)
as "x / y / z", (x / y) ^ z as "x / y ^ z", (-1) ^ 2 as "-1 ^ 2" and
x / (1/2) as "x / 1/2".
---
 src/ast/op/operand.rs  | 11 +++++++++++
 src/ast/op/operator.rs | 16 ++++++++++++++++
 src/ast/tree.rs        | 16 ++++++++++++----
 src/smart_num/mod.rs   |  5 +++++
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/ast/op/operand.rs b/src/ast/op/operand.rs
index 9832003..e3657d6 100644
--- a/src/ast/op/operand.rs
+++ b/src/ast/op/operand.rs
@@ -77,6 +77,17 @@ impl AstOperand {
         })
     }
 
+    /// How tightly the rendered operand binds, on the scale of the operators.
+    pub fn priority(&self) -> u32 {
+        match self {
+            // rendered as "-a"
+            AstOperand::Num(num) if num.sign() < 0 => 1_u32,
+            // rendered as "a/b"
+            AstOperand::Num(num) if num.is_fraction() => 4_u32,
+            _ => u32::MAX,
+        }
+    }
+
     pub fn is_num(&self) -> bool {
         match self {
             AstOperand::Num(_) => true,
diff --git a/src/ast/op/operator.rs b/src/ast/op/operator.rs
index c3cb3e8..fb1d5aa 100644
--- a/src/ast/op/operator.rs
+++ b/src/ast/op/operator.rs
@@ -23,6 +23,22 @@ pub struct AstOperator {
     pub(crate) descriptor: OperatorType,
 }
 
+impl AstOperator {
+    /// The lowest priority the (left, right) operands may have to be
+    /// rendered without parentheses.
+    pub(crate) fn operand_priority(&self) -> (u32, u32) {
+        match self.descriptor {
+            // "-x + y" is (-x) + y
+            OperatorType::Neg => (3_u32, 3_u32),
+            // "x - y - z" is (x - y) - z, "x / y / z" is (x / y) / z
+            OperatorType::Sub | OperatorType::Div => (self.priority, self.priority + 1),
+            // "x ^ y" binds tighter than "x / y", and is not associative
+            OperatorType::Pow => (self.priority + 1, self.priority + 1),
+            _ => (self.priority, self.priority),
+        }
+    }
+}
+
 impl PartialEq for AstOperator {
     fn eq(&self, other: &Self) -> bool {
         self.descriptor == other.descriptor
diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..78cb453 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -78,19 +78,27 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => {
+                let me = v.to_string();
+                if v.priority() < upper_priority {
+                    format!("({})", me)
+                } else {
+                    me
+                }
+            }
             AstNode::Operator(op) => {
+                let (left_priority, right_priority) = op.operand_priority();
                 let me = if self.child.len() == 2 {
                     // binary operator
                     format!(
                         "{} {} {}",
-                        self.child[0].to_string_raw(op.priority),
+                        self.child[0].to_string_raw(left_priority),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(right_priority),
                     )
                 } else {
                     // unary operator
-                    format!("{}{}", op, self.child[0].to_string_raw(op.priority),)
+                    format!("{}{}", op, self.child[0].to_string_raw(left_priority),)
                 };
                 if op.priority < upper_priority {
                     format!("({})", me)
diff --git a/src/smart_num/mod.rs b/src/smart_num/mod.rs
index cc06b70..10f2324 100644
--- a/src/smart_num/mod.rs
+++ b/src/smart_num/mod.rs
@@ -96,6 +96,11 @@ impl SmartNum {
         self.tag == ConstType::E
     }
 
+    /// Whether the number is rendered as a quotient.
+    pub fn is_fraction(&self) -> bool {
+        self.tag == ConstType::Nothing && self.value.is_rational()
+    }
+
     pub fn sign(&self) -> i64 {
         match self.value {
             SmartNumVal::Integer(v) => v.signum(),
-- 
2.43.0


From 6cf3fe19704d2e48b47fb304122eabdb813a8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 08/17] fix: parenthesize the coefficients of a displayed
 Taylor expansion

A coefficient y + 1 was displayed as "y + 1 * x ^ 2".
---
 src/compute/taylor_expansion/partial_expansion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/taylor_expansion/partial_expansion.rs b/src/compute/taylor_expansion/partial_expansion.rs
index 3bddce5..6c321ed 100644
--- a/src/compute/taylor_expansion/partial_expansion.rs
+++ b/src/compute/taylor_expansion/partial_expansion.rs
@@ -26,8 +26,8 @@ impl Display for PartialExpansion {
             if term.is_zero() {
                 continue;
             }
-            content.push_str(format!("{} * ", term).as_str());
-            content.push_str(format!("{}", b.clone().pow(idx as i64)).as_str());
+            let product = term.clone() * b.clone().pow(idx as i64);
+            content.push_str(format!("{}", product).as_str());
             content.push_str(" + ")
         }
         content.push_str(format!("O({})", b.clone().pow(self.order + 1),).as_str());
-- 
2.43.0


From b1542cb38bb282966121c932f78bda88091e215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 09/17] fix: the limit of -u is minus the limit of u

The rule called itself on the operand instead of taking its limit, and
panicked on any negation or subtraction.
---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..f505043 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..006f000 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        Ok(-sub.limit(of, to, order_try)?)
     }
 }
-- 
2.43.0


From 090c9618c64c0b417fd898bd3cfcb361096fc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 10/17] fix: the limit of sin(u) at 0 depends on u

sin(u) was taken to vanish at 0 whatever u is, so that sin(x + 1) and
sin(y) had the limit 0 for x -> 0.
---
 src/compute/limit/rules/sin.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..2a70035 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -18,19 +18,15 @@ impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
-        }
+        self.substitute(of, &to)
+            .map_err(|_| NoValidLimitFound {})
+            .map(|expr| {
+                let z = expr.num_aggregate();
+                if z.is_zero() {
+                    LimitExpression::Infinitesimal
+                } else {
+                    LimitExpression::Normal(z)
+                }
+            })
     }
 }
-- 
2.43.0


From 7295d9fce1ca5dd9f824d1b8503eef6f63e72e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 11/17] fix: a limit of zero is infinitesimal, never a
 "non-zero" normal limit

The limit of (x - 1) / (x - 1) at 1 came out as 0/0 instead of going
through l'Hopital's rule.
---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f505043..d1abb5f 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let expr = expr.num_aggregate();
+                    Ok(if expr.is_zero() {
+                        LimitExpression::Infinitesimal
+                    } else {
+                        LimitExpression::Normal(expr)
+                    })
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From 8352d93910ab8bebd47ab2994382140aab86c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 12/17] fix: 0 + infinity is infinity, as infinity + 0 is

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From d51cd943cd0db3df9f8de54a46338a43380be960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 13/17] fix: no limit rule for exp, ln and pow is an error, not
 a panic

---
 src/compute/limit/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index d1abb5f..57b8750 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -52,9 +52,9 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 OperatorType::Div => self.div_limit_expr_rule(of, to, order_try),
                 OperatorType::Sin => self.sin_limit_expr_rule(of, to, order_try),
                 OperatorType::Cos => self.cos_limit_expr_rule(of, to, order_try),
-                OperatorType::Exp => todo!(),
-                OperatorType::Ln => todo!(),
-                OperatorType::Pow => todo!(),
+                OperatorType::Exp => Err(NoValidLimitFound {}),
+                OperatorType::Ln => Err(NoValidLimitFound {}),
+                OperatorType::Pow => Err(NoValidLimitFound {}),
             },
         }?;
         let flag = match &z {
-- 
2.43.0


From 7577481f65c93046e9ba4c04038f7c2425ed873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 14/17] fix: a limit in something that is not a variable is an
 error, not a panic

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 57b8750..67d5825 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -84,7 +84,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0


From 9dceefb2ee0ee945a9576935694efdf3494729f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 15/17] fix: every retry of a limit uses up an order

The rewritten and derived expressions are larger than the original and
were tried with the full order again, so that e.g. the limit of
(x * sin(1 / x)) / x at 0 overflowed the stack, with any order above 0.
---
 src/compute/limit/rules/add.rs | 3 ++-
 src/compute/limit/rules/div.rs | 6 +++---
 src/compute/limit/rules/mul.rs | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compute/limit/rules/add.rs b/src/compute/limit/rules/add.rs
index 92c569b..b9c0b99 100644
--- a/src/compute/limit/rules/add.rs
+++ b/src/compute/limit/rules/add.rs
@@ -28,9 +28,10 @@ impl AddLimitExprRule for Expression {
         if first_try.is_ok() {
             return Ok(first_try.unwrap());
         } else {
+            let order_left = order_try.checked_sub(1).ok_or(NoValidLimitFound {})?;
             // l + r = (l/r + 1)/(1/r)
             let z = (l_ / r_.clone() + Expression::one()) / (Expression::one() / r_);
-            return z.limit(of, to, order_try);
+            return z.limit(of, to, order_left);
         }
     }
 }
diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..aa55adf 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -26,9 +26,9 @@ impl DivLimitExprRule for Expression {
         let mut r = self.child.pop().unwrap();
         let mut l = self.child.pop().unwrap();
         // l/r
-        for _ in 0..=order_try {
-            let a = l.clone().limit(of, to.clone(), order_try)?;
-            let b = r.clone().limit(of, to.clone(), order_try)?;
+        for used in 0..=order_try {
+            let a = l.clone().limit(of, to.clone(), order_try - used)?;
+            let b = r.clone().limit(of, to.clone(), order_try - used)?;
             let z = a / b;
             if z.is_ok() {
                 return Ok(z.unwrap());
diff --git a/src/compute/limit/rules/mul.rs b/src/compute/limit/rules/mul.rs
index 562c8c0..dccf5c1 100644
--- a/src/compute/limit/rules/mul.rs
+++ b/src/compute/limit/rules/mul.rs
@@ -34,14 +34,15 @@ impl MulLimitExprRule for Expression {
         if first_try.is_ok() {
             return Ok(first_try.unwrap());
         } else {
+            let order_left = order_try.checked_sub(1).ok_or(NoValidLimitFound {})?;
             if r_lim_is_zero {
                 // (l * r) = r / (1/l) if l is not close 0
                 let z = r_ / (Expression::one() / l_);
-                return z.limit(of, to, order_try);
+                return z.limit(of, to, order_left);
             } else {
                 // (l * r) = l / (1/r) if r is not close 0
                 let z = l_ / (Expression::one() / r_);
-                return z.limit(of, to, order_try);
+                return z.limit(of, to, order_left);
             }
         }
     }
-- 
2.43.0


From 2f2d0403de0db23ce18afe1d2fde3c1953545bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 16/17] fix: derivative of a power with a constant exponent
 exists where the base is zero

---
 src/compute/derivative/rules/pow.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..7ec82d0 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -13,6 +13,11 @@ pub(crate) fn pow_derivative_rule(
     let u = child.pop().unwrap();
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
+    if r_d.is_zero() {
+        // r is a constant: (u^r)' = r * u^(r-1) * u', also where u is zero or negative
+        let s = r.clone() - Expression::one();
+        return Ok(r * u.pow(s) * u_d);
+    }
     let ln_u = u.clone().ln();
     let u_pow_r = u.clone().pow(r.clone());
     return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));
-- 
2.43.0


From e32764c81d2fdd81699d5a6232f6eea12e74010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:21 +0000
Subject: [PATCH 17/17] fix: aggregating 0 - (-u) gives u, as aggregating -(-u)
 does

---
 src/compute/num_aggregate/rules/neg.rs | 6 +++++-
 src/compute/num_aggregate/rules/sub.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compute/num_aggregate/rules/neg.rs b/src/compute/num_aggregate/rules/neg.rs
index 28f616e..3b07e53 100644
--- a/src/compute/num_aggregate/rules/neg.rs
+++ b/src/compute/num_aggregate/rules/neg.rs
@@ -4,7 +4,11 @@ use crate::compute::num_aggregate::NumAggregate;
 use crate::smart_num::ToSmartNum;
 
 pub(crate) fn neg_eval_rule(mut child: Vec<Expression>) -> Expression {
-    let mut sub = child.pop().unwrap().num_aggregate();
+    negated(child.pop().unwrap().num_aggregate())
+}
+
+/// Negation of an expression that is already aggregated.
+pub(crate) fn negated(mut sub: Expression) -> Expression {
     if sub.is_num() {
         Expression::from(-sub.to_smart_num().unwrap())
     } else {
diff --git a/src/compute/num_aggregate/rules/sub.rs b/src/compute/num_aggregate/rules/sub.rs
index 2d8e783..911f014 100644
--- a/src/compute/num_aggregate/rules/sub.rs
+++ b/src/compute/num_aggregate/rules/sub.rs
@@ -1,4 +1,5 @@
 use crate::ast::tree::Expression;
+use crate::compute::num_aggregate::rules::neg::negated;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::smart_num::ToSmartNum;
 
@@ -8,7 +9,7 @@ pub(crate) fn sub_eval_rule(mut child: Vec<Expression>) -> Expression {
     if l.is_num() && r.is_num() {
         Expression::from(l.to_smart_num().unwrap() - r.to_smart_num().unwrap())
     } else if l.is_zero() {
-        -r
+        negated(r)
     } else if r.is_zero() {
         l
     } else {
-- 
2.43.0

