From a19fc8e29baf522ea67d9e53b728c231ef579dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 01/22] fix: replace the basis of a single row LU decomposition

---
 .../inverse_maintenance/carry/lower_upper/mod.rs      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..06a58bc 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -98,6 +98,17 @@ where
     ) -> SparseVector<Self::F, Self::F> {
         let m = self.m();
 
+        if m == 1 {
+            // The first column is not represented in the `upper_triangular` field, there is nothing
+            // to be rotated. The spike consists of only the new value on the diagonal.
+            let Self::ColumnComputationInfo { column, mut spike } = column;
+            debug_assert_eq!(spike.len(), 1);
+            let (_, diagonal_value) = spike.pop().unwrap();
+            self.upper_diagonal[0] = diagonal_value;
+
+            return column;
+        }
+
         let pivot_column_index = {
             // Column with a pivot in `pivot_row_index` is leaving
             let mut pivot_column_index = pivot_row_index;
-- 
2.43.0


From 8bdbfe27d11fa08963c986888f88fdaaac66701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 02/22] fix: allow LU decompositions without any rows

---
 .../carry/lower_upper/decomposition/mod.rs                 | 7 +++----
 .../tableau/inverse_maintenance/carry/lower_upper/mod.rs   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..03e0f4a 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,13 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +105,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +116,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 06a58bc..df08eec 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
-- 
2.43.0


From bb9f9c6af7bd2f39dbf66356b6686da5a21d9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 03/22] fix: multiply an empty row with a dense basis inverse

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..8926420 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -165,7 +165,10 @@ where
     where
         Self::F: ops::Column<I::F>,
     {
-        let (index, factor) = row.next().unwrap();
+        let (index, factor) = match row.next() {
+            Some(tuple) => tuple,
+            None => return SparseVector::new(Vec::with_capacity(0), self.m()),
+        };
         let items = self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect();
         let mut total = SparseVector::new(items, self.m());
 
-- 
2.43.0


From 5b9ca622d978665312ccf1f9743893db5c730a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:16 +0000
Subject: [PATCH 04/22] fix: negate the constant of the objective with its
 costs

---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..90cbaa2 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -624,6 +624,7 @@ where
         if self.objective == Objective::Maximize {
             self.objective = Objective::Minimize;
 
+            self.fixed_cost *= -OF::one();
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
-- 
2.43.0


From 585ce733d01933415c6e2a300dcd74ee7aa9012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 05/22] fix: treat ranges that touch the lower activity bound
 in presolve

When the upper end of a range equals the lower activity bound, all variables
are at a bound. This was thought to be impossible, and crashed.
---
 .../general_form/presolve/rule/domain_propagation.rs   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..408ba73 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -305,12 +305,6 @@ where
             (BoundDirection::Upper, Equal | Range(_) | Less | Greater, Ordering::Less) => {
                 Ok(None)
             },
-
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From e6bf67b6c133289de23c00bf371f31f7b85538c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 06/22] fix: keep the lower side of a range when its slack is
 removed

A range row whose slack has a bound on one side only becomes the inequality
at the lower end of the range, which was taken to be at the upper end.
---
 .../linear_program/general_form/presolve/rule/slack.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..ce31bc4 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | <a,x> >= b-r-cu  | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || <a,x> >= b-r-cl  | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -157,7 +157,11 @@ where
             },
         };
 
-        let change = -&coefficient * &bound;
+        let mut change = -&coefficient * &bound;
+        if let (Range(range), RangedConstraintRelation::Greater) = (constraint_type, &new_constraint_type) {
+            // Only the lower side of the range remains
+            change -= range;
+        }
 
         let removed = match constraint_type {
             Equal | Range(_) => {
-- 
2.43.0


From 1fc7cfdf5cf1febea61219a4436f4c76cd310695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 07/22] fix: keep the values of removed slack variables within
 their bounds

---
 src/data/linear_program/general_form/mod.rs   | 100 +++++++++++++++---
 .../general_form/presolve/rule/slack.rs       |   6 +-
 .../general_form/presolve/updates.rs          |   6 ++
 3 files changed, 97 insertions(+), 15 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 90cbaa2..33d2f37 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -24,7 +24,7 @@ use crate::data::linear_algebra::traits::{SparseComparator, SparseElement as Lin
 use crate::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
 use crate::data::linear_program::elements::{BoundDirection, LinearProgramType, Objective, RangedConstraintRelation, RangedConstraintRelationKind, VariableType};
 use crate::data::linear_program::general_form::presolve::{Change, Index as PresolveIndex};
-use crate::data::linear_program::general_form::presolve::updates::Changes;
+use crate::data::linear_program::general_form::presolve::updates::{Changes, Updates};
 use crate::data::linear_program::general_form::RemovedVariable::{FunctionOfOthers, Solved};
 use crate::data::linear_program::solution::Solution;
 
@@ -102,6 +102,17 @@ enum OriginalVariable<F> {
     ///
     /// Probably by a presolve operation. An explicit value might not be known.
     Removed(RemovedVariable<F>),
+
+    /// Variable was a slack that was removed from a constraint that doesn't need to be active.
+    ///
+    /// The value is the value that activates the constraint (see `FunctionOfOthers`), or the closest
+    /// of the bounds of the variable if that value is outside of those bounds.
+    RemovedSlack {
+        constant: F,
+        coefficients: SparseTupleVec<F>,
+        lower: Option<F>,
+        upper: Option<F>,
+    },
 }
 
 /// A variable from the original problem that was removed.
@@ -131,6 +142,15 @@ pub enum RemovedVariable<F> {
     },
 }
 
+/// The value closest to the given value that is not outside of the bounds.
+fn restrict<F: Ord + Clone>(value: F, lower: Option<&F>, upper: Option<&F>) -> F {
+    match (lower, upper) {
+        (Some(lower), _) if &value < lower => lower.clone(),
+        (_, Some(upper)) if &value > upper => upper.clone(),
+        _ => value,
+    }
+}
+
 /// Check whether the dimensions of the `GeneralForm` are consistent.
 ///
 /// This method might be expensive, use it in debugging only. It can be viewed as a piece of
@@ -349,6 +369,8 @@ where
     /// If the linear program gets solved during this presolve operation, a `Result::Err` return
     /// value containing the solution.
     pub fn presolve(&mut self) -> Result<(), LinearProgramType<OF>> {
+        let mut updates = self.compute_presolve_updates()?;
+        let slack_bounds = mem::take(&mut updates.slack_bounds);
         let Changes {
             b,
             constraints,
@@ -356,7 +378,7 @@ where
             bounds,
             removed_variables,
             constraints_marked_removed,
-        } = self.compute_presolve_changes()?;
+        } = updates.into_changes();
 
         let variable_indices_only = removed_variables.iter().map(|&(j, _)| j).collect();
         self.update_values_that_remain(
@@ -365,6 +387,7 @@ where
             fixed_cost,
             bounds,
             removed_variables,
+            slack_bounds,
         );
         self.remove_rows_and_columns(constraints_marked_removed, variable_indices_only);
         debug_assert!(is_consistent(self));
@@ -383,9 +406,9 @@ where
     /// # Errors
     ///
     /// In case the linear program gets solved during this presolve operation, a solution.
-    fn compute_presolve_changes(
+    fn compute_presolve_updates(
         &self
-    ) -> Result<Changes<OF>, LinearProgramType<OF>> {
+    ) -> Result<Updates<OF>, LinearProgramType<OF>> {
         let mut index = PresolveIndex::new(self)?;
 
         let mut iterations_without_meaningful_change = 0;
@@ -405,7 +428,15 @@ where
             }
         }
 
-        Ok(index.updates.into_changes())
+        Ok(index.updates)
+    }
+
+    /// The changes that presolving this problem would result in.
+    #[cfg(test)]
+    fn compute_presolve_changes(
+        &self
+    ) -> Result<Changes<OF>, LinearProgramType<OF>> {
+        self.compute_presolve_updates().map(Updates::into_changes)
     }
 
     /// Modify the values that remain after the presolve operation.
@@ -420,6 +451,7 @@ where
     /// * `fixed_cost`: Change to the fixed cost.
     /// * `bounds`: New or tightened bounds, by value (as opposed to change).
     /// * `solved_variables`: Values to remove from the problem.
+    /// * `slack_bounds`: Bounds that the values of some of the removed variables should satisfy.
     fn update_values_that_remain(
         &mut self,
         b: HashMap<usize, OF>,
@@ -427,6 +459,7 @@ where
         fixed_cost: OF,
         bounds: HashMap<(usize, BoundDirection), OF>,
         solved_variables: Vec<(usize, RemovedVariable<OF>)>,
+        mut slack_bounds: HashMap<usize, (Option<OF>, Option<OF>)>,
     ) {
         for (i, change) in b {
             self.b[i] = change;
@@ -439,7 +472,12 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
+            self.original_variables[j].1 = match (variable, slack_bounds.remove(&j)) {
+                (FunctionOfOthers { constant, coefficients }, Some((lower, upper))) => {
+                    OriginalVariable::RemovedSlack { constant, coefficients, lower, upper }
+                },
+                (variable, _) => OriginalVariable::Removed(variable),
+            };
         }
 
         for ((j, direction), value) in bounds {
@@ -722,7 +760,7 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if let OriginalVariable::Removed(FunctionOfOthers { .. }) | OriginalVariable::RemovedSlack { .. } = variable {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -764,11 +802,15 @@ where
             OriginalVariable::Removed(Solved(value)) => Some(value),
             OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
                 if new_solutions[variable].is_none() {
-                    new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
-                        self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
-                    })
-                        .sum::<Option<OF>>()
-                        .map(|inner_product| constant - inner_product);
+                    new_solutions[variable] = self.compute_affine_value(constant, coefficients, new_solutions);
+                }
+
+                new_solutions[variable].as_ref()
+            }
+            OriginalVariable::RemovedSlack { constant, coefficients, lower, upper } => {
+                if new_solutions[variable].is_none() {
+                    new_solutions[variable] = self.compute_affine_value(constant, coefficients, new_solutions)
+                        .map(|value| restrict(value, lower.as_ref(), upper.as_ref()));
                 }
 
                 new_solutions[variable].as_ref()
@@ -776,6 +818,27 @@ where
         }
     }
 
+    /// Compute the value of an affine function `constant - <coefficients, x>` of other variables.
+    ///
+    /// This is a helper method of the `compute_solution_value` function.
+    ///
+    /// # Return value
+    ///
+    /// The value, if those of all the other variables could be determined.
+    fn compute_affine_value(
+        &self,
+        constant: &OF,
+        coefficients: &SparseTupleVec<OF>,
+        new_solutions: &mut Vec<Option<OF>>,
+    ) -> Option<OF> {
+        coefficients.iter()
+            .map(|(j, coefficient)| {
+                self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
+            })
+            .sum::<Option<OF>>()
+            .map(|inner_product| constant - inner_product)
+    }
+
     /// If this problem is fully solved (probably by presolving), get the solution.
     ///
     /// All original variables need to have an explicit solution. Hint: Try calling
@@ -894,7 +957,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -920,7 +983,8 @@ where
                 }
             },
             OriginalVariable::Removed(Solved(v)) => v.clone().into(),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
+            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) |
+            OriginalVariable::RemovedSlack { constant, coefficients, .. } => {
                 -coefficients.iter()
                     .map(|(j, coefficient)| {
                         self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
@@ -928,6 +992,14 @@ where
                     .sum::<G>() + constant
             }
         };
+        let new_solution = match &self.original_variables[variable].1 {
+            OriginalVariable::RemovedSlack { lower, upper, .. } => restrict(
+                new_solution,
+                lower.clone().map(G::from).as_ref(),
+                upper.clone().map(G::from).as_ref(),
+            ),
+            _ => new_solution,
+        };
 
         new_solutions[variable] = Some(new_solution);
         new_solutions[variable].as_ref().unwrap()
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index ce31bc4..465d37f 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -91,7 +91,7 @@ where
 
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
-        let (new_constraint_type, bound) = match (constraint_type, bounds, coefficient_sign) {
+        let (new_constraint_type, bound) = match (constraint_type, bounds.clone(), coefficient_sign) {
             // Remove both row and column
             (Greater, (Some(_), None), Positive) | (Less, (None, Some(_)), Positive) |
             (Less, (Some(_), None), Negative) | (Greater, (None, Some(_)), Negative) |
@@ -102,6 +102,7 @@ where
                 // they make about the state of counters, updates etc.
 
                 let solution = self.compute_removed_variable_solution(constraint, variable, &coefficient);
+                self.updates.slack_bounds.insert(variable, bounds);
 
                 let variables_to_scan = self.counters.iter_active_row(constraint)
                     .map(|(j, _)| j).collect::<Vec<_>>();
@@ -169,6 +170,9 @@ where
             }
             Greater | Less => RemovedVariable::Solved(bound),
         };
+        if let Range(_) = constraint_type {
+            self.updates.slack_bounds.insert(variable, bounds);
+        }
         self.counters.variable[variable] -= 1;
         self.remove_variable(variable, removed);
 
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..49cc13a 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -43,6 +43,11 @@ pub struct Updates<'a, F> {
     /// `RemovedVariable` struct. All variables for which a solution was found should be part of the
     /// `removed_variables` field.
     pub removed_variables: Vec<(usize, RemovedVariable<F>)>,
+    /// Bounds of the slack variables that were removed from a constraint that doesn't need to be
+    /// active.
+    ///
+    /// The value that activates the constraint could be outside of these bounds.
+    pub slack_bounds: HashMap<usize, (Option<F>, Option<F>)>,
     /// Collecting the indices, relative to the active part of the problem, that should be removed.
     ///
     /// This collection is here only to avoid an extra scan over the `column_counters`.
@@ -151,6 +156,7 @@ where
             bounds: HashMap::new(),
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
+            slack_bounds: HashMap::new(),
             constraints_marked_removed,
 
             activity_bounds: HashMap::new(),
-- 
2.43.0


From bbed37844e3a170b00fd673f3d3e28c9c6e583a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 08/22] fix: recompute activity bounds after a variable is
 removed from a row

---
 .../linear_program/general_form/presolve/rule/fixed_variable.rs | 2 ++
 src/data/linear_program/general_form/presolve/rule/slack.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..05b2824 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -41,6 +41,8 @@ where
         for constraint in rows_to_substitute {
             self.counters.variable[variable] -= 1;
             self.counters.constraint[constraint] -= 1;
+            // Still includes the variable, and should be recomputed without it
+            self.activity_bounds[constraint] = (None, None);
             self.queue_constraint_by_counter(constraint)?;
         }
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 465d37f..fcdfa8d 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -178,6 +178,8 @@ where
 
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
         self.counters.constraint[constraint] -= 1;
+        // Still includes the variable, and should be recomputed without it
+        self.activity_bounds[constraint] = (None, None);
         self.queue_constraint_by_counter(constraint).map(|_| ())?;
 
         self.updates.change_b(constraint, change);
-- 
2.43.0


From f00382f354672b278fc17fa1f37810f89a055b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 09/22] fix: store the variables removed by a second presolve
 under their own index

---
 src/data/linear_program/general_form/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 33d2f37..d1ef722 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -472,7 +472,8 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
-            self.original_variables[j].1 = match (variable, slack_bounds.remove(&j)) {
+            let original = self.from_active_to_original[j];
+            self.original_variables[original].1 = match (variable, slack_bounds.remove(&j)) {
                 (FunctionOfOthers { constant, coefficients }, Some((lower, upper))) => {
                     OriginalVariable::RemovedSlack { constant, coefficients, lower, upper }
                 },
-- 
2.43.0


From 8d3ecf2e733a3ed9379d9f2db326697f4f7fd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 10/22] fix: keep the derived bounds that make a row redundant
 in presolve

---
 .../presolve/rule/domain_propagation.rs       | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 408ba73..ff469ba 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -167,8 +167,13 @@ where
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
             let (remove_constraint, apply_variable_part) = match change {
-                ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                ConstraintUpdate::Remove => {
+                    self.keep_activity_variable_bounds(constraint, direction);
+
+                    (true, true) // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                },
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
+                    self.keep_activity_variable_bounds(constraint, direction);
                     self.updates.constraints.insert(constraint, new_inequality.into());
                     self.updates.change_b(constraint, right_hand_side_shift);
 
@@ -213,6 +218,28 @@ where
         }
     }
 
+    /// Make the derived variable bounds that an activity bound is based on permanent.
+    ///
+    /// A (side of a) constraint that is redundant because of them might be what they were derived
+    /// from.
+    ///
+    /// # Arguments
+    ///
+    /// * `constraint`: Index of the constraint under consideration.
+    /// * `direction`: Whether it's the activity lower- or upperbound that was used.
+    fn keep_activity_variable_bounds(
+        &mut self,
+        constraint: usize,
+        direction: BoundDirection,
+    ) {
+        for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+            let variable_direction = direction * coefficient.non_zero_signum();
+            if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
+                self.updates.bounds.insert((variable, variable_direction), bound_value);
+            }
+        }
+    }
+
     /// Whether a constraint can be removed.
     ///
     /// We start with `<a, x> (== =r= <= >=) b`, `l <= <a, x>` or `<a, x> <= u` and `a (= < >) b`
-- 
2.43.0


From 5efec4b83fa6a34be12553b0e9447ede183dd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 11/22] fix: propagate the bounds of variables set to their
 other bound in presolve

---
 .../linear_program/general_form/presolve/mod.rs    |  2 +-
 .../presolve/rule/domain_propagation.rs            | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..742d1e4 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index ff469ba..9b5e4f2 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -181,6 +181,7 @@ where
                 },
                 ConstraintUpdate::SetVariablesToBound => {
                     let mut activity_counters_to_update = Vec::new();
+                    let mut activity_bounds_to_update = Vec::new();
                     for (variable, coefficient) in self.counters.iter_active_row(constraint) {
                         let variable_direction = direction * coefficient.non_zero_signum();
                         let bound = self.updates.variable_bound(variable, variable_direction)
@@ -195,8 +196,14 @@ where
                         }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
-                        if change == BoundChange::NewBound {
-                            activity_counters_to_update.push((variable, !variable_direction));
+                        match change {
+                            BoundChange::None => {},
+                            BoundChange::NewBound => {
+                                activity_counters_to_update.push((variable, !variable_direction));
+                            },
+                            BoundChange::BoundShift(shift) => {
+                                activity_bounds_to_update.push((variable, !variable_direction, shift));
+                            },
                         }
                         debug_assert!(self.updates.is_variable_fixed(variable).is_some());
 
@@ -206,6 +213,9 @@ where
                     for (variable, direction) in activity_counters_to_update {
                         self.update_activity_counters(variable, direction);
                     }
+                    for (variable, direction, shift) in activity_bounds_to_update {
+                        self.update_activity_bounds(variable, direction, shift);
+                    }
 
                     (true, false)
                 }
-- 
2.43.0


From faadc3bccc61b979be27b017da19b9e638f00767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:54 +0000
Subject: [PATCH 12/22] fix: scaling of programs without any factors

A program of which all values are plus or minus one (or zero) has no factors, and collecting the factors
indexed the first one.
---
 .../general_form/presolve/scale/rational/mod.rs        | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..d175473 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -55,7 +55,9 @@ where
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(
+            scale_per_factor, self.nr_active_constraints(), self.nr_active_variables(),
+        );
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,16 +653,12 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize, nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
-
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
     let mut constraint_column_factors = vec![R::one(); nr_columns];
-- 
2.43.0


From 29e97fcf45b43823b0edc2bf2401448102a59637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:29 +0000
Subject: [PATCH 13/22] fix: reading of numbers from texts without any digits,
 with other characters or that don't fit

---
 src/io/mps/number/parse.rs | 43 ++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..fec445d 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,36 +78,29 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
-        };
+        let error = || ParseError::new(format!("Failed to parse \"{}\" as a decimal number.", text));
 
-        let parse = |text: &str, number_part| {
-            if text.is_empty() {
-                Ok(0)
-            } else {
-                text.parse()
-                    .map_err(|error| ParseError::wrap_other(
-                        error,
-                        format!("Failed to parse {} \"{}\" as u64.", number_part, text),
-                    ))
-            }
+        let (has_minus, unsigned) = match text.strip_prefix('-') {
+            Some(unsigned) => (true, unsigned),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
 
-        let (integer, decimal_steps_from_right): (u64, _) = match text.find('.') {
-            None => (parse(text, "entire value")?, 0),
-            Some(index) => {
-                let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
+        let (integer_part, mantissa_part) = unsigned.split_once('.').unwrap_or((unsigned, ""));
+        if integer_part.is_empty() && mantissa_part.is_empty() {
+            return Err(error());
+        }
 
-                let integer_part = parse(&text[0..index], "integer part")?;
-                let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
+        // Both the digits and the power of ten they are divided by should fit.
+        let mut integer = 0_u64;
+        for character in integer_part.chars().chain(mantissa_part.chars()) {
+            let digit = character.to_digit(10).ok_or_else(error)?;
+            integer = integer.checked_mul(10)
+                .and_then(|value| value.checked_add(u64::from(digit)))
+                .ok_or_else(error)?;
+        }
+        let decimal_steps_from_right = u32::try_from(mantissa_part.len()).map_err(|_| error())?;
+        10_u64.checked_pow(decimal_steps_from_right).ok_or_else(error)?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
-            },
-        };
-        
         let sign = match (has_minus, integer) {
             (_, 0) => Sign::Zero,
             (false, _) => Sign::Positive,
-- 
2.43.0


From 1d6e460b1ed8a279fa536c49e7cf60f5d7fc7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 14/22] fix: fixed column texts with lines that end before
 their last field does

---
 src/io/mps/parse/fixed.rs | 107 +++++++++++++-------------------------
 1 file changed, 35 insertions(+), 72 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..42e49bb 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,95 +41,58 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
-            if name.is_empty() {
-                Err(ParseError::new("Empty row name."))
-            } else {
-                Ok([type_text, name])
-            }
-        } else {
-            Err(ParseError::new("Line is too short."))
-        }
+        Ok([nonempty_field(line, 1)?, nonempty_field(line, 2)?])
     }
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
-        if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
-                if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
-                } else {
-                    Err(ParseError::new("Line is too short to be a marker line."))
-                }
-            } else {
-                Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
-            }
+        if field(line, 3)? == COLUMN_SECTION_MARKER {
+            Ok(ColumnLineContent::Marker([nonempty_field(line, 5)?]))
         } else {
-            Err(ParseError::new("Line is too short."))
+            let (fields, rest) = Self::two_through_four(line)?;
+            Ok(ColumnLineContent::Data(fields, rest))
         }
     }
 
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[4].end {
-            Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
-        } else {
-            Err(ParseError::new("Line is too short."))
-        }
+        Ok(([field(line, 2)?, nonempty_field(line, 3)?, nonempty_field(line, 4)?], line))
     }
 
-    fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
+    fn five_and_six(line: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
+        let (five, six) = (field(line, 5)?, field(line, 6)?);
 
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+        match (five.is_empty(), six.is_empty()) {
+            (false, false) => Ok(Some([five, six])),
+            (true, true) => Ok(None),
+            _ => Err(ParseError::new("Line has only one of the fifth and sixth elements.")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
+        Ok(([nonempty_field(line, 1)?, field(line, 2)?, nonempty_field(line, 3)?], line))
+    }
 
-            Ok(([type_text, name, column], rest))
-        } else {
-            Err(ParseError::new("Line is too short."))
-        }
+    fn four(line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
+        Ok([nonempty_field(line, 4)?])
     }
+}
 
-    fn four(rest_of_line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
-        let end_of_column = FIELDS[4].end - FIELDS[3].end;
-        if rest_of_line.len() >= end_of_column {
-            let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
-            Ok([value_text])
-        } else {
-            Err(ParseError::new("Line doesn't contain another value, it's too short."))
-        }
+/// Read a field, without the spaces around it.
+///
+/// Lines don't need to be padded with spaces, so they might end before or in this field.
+fn field(line: &str, number: usize) -> ParseResult<&str> {
+    let Range { start, end } = FIELDS[number];
+    line.get(start.min(line.len())..end.min(line.len()))
+        .map(str::trim)
+        .ok_or_else(|| ParseError::new("Line has a character that is in more than one column."))
+}
+
+/// Read a field that should be there.
+fn nonempty_field(line: &str, number: usize) -> ParseResult<&str> {
+    let text = field(line, number)?;
+    if text.is_empty() {
+        Err(ParseError::new(format!("Line has no text in field {}, it might be too short.", number)))
+    } else {
+        Ok(text)
     }
 }
 
-- 
2.43.0


From 31b1357243130300dc064297194461f42429cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:06 +0000
Subject: [PATCH 15/22] fix: crashes on malformed names, row types and
 semi-continuous bounds

---
 src/io/mps/convert.rs   |  4 +++-
 src/io/mps/parse/mod.rs | 15 +++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..045a785 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -256,7 +256,9 @@ fn process_bound<FI, FO: From<FI> + Ord + Zero + One + Clone>(
             variable.variable_type = VariableType::Integer;
             Ok((true, false))
         },
-        BoundType::SemiContinuous(_, _) => unimplemented!(),
+        BoundType::SemiContinuous(_, _) => {
+            Err(Inconsistency::new("Semi-continuous bounds are not supported"))
+        },
     }
 }
 
diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..05a9730 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -175,20 +175,15 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
     match location {
         None => Err(ParseError::new("No line to read, is the file empty?")),
         Some((number, line)) => {
-            if line.len() < NAME.len() {
-                return Err(ParseError::with_location("Line too short.", (number, line)));
-            }
-
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
                     format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
+                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, line,
                     ),
                     (number, line),
                 ))
@@ -741,7 +736,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous bounds are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
@@ -821,7 +816,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From f2b61d9722be173d9d138e049e32e86c623e0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 16/22] fix: columns with two costs or that aren't consecutive,
 and repeated markers

---
 src/io/mps/parse/mod.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 05a9730..178efc0 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -381,8 +381,7 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         &mut column_to_be_saved, &mut column_collector, &mut collector, active_variable_type,
                     )?;
 
-                    // TODO(CORRECTNESS): Err when the type doesn't actually change?
-                    let previous_variable_type = active_variable_type;
+                    // A marker that doesn't change the type has no effect.
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
                         END_OF_INTEGER => VariableType::Continuous,
@@ -390,7 +389,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
@@ -413,6 +411,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new(format!(
+                                        "Duplicate cost value for column with index {}", column_index,
+                                    )).into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -494,19 +497,25 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If there are columns with duplicate names, e.g. because the values of a column are not listed
+/// consecutively.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("Not all column names are unique"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
-- 
2.43.0


From 2f8f3d6c7f4aa2c86a1b56b311a962034163ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 17/22] fix: printing of program inconsistencies, which are not
 their own source

---
 src/io/error.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..a64d33d 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,8 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
-impl Error for Inconsistency {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for Inconsistency {}
-- 
2.43.0


From c97c8bf4aca55b3e5b0fd873856ac1a9e541c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 18/22] fix: right-hand sides of rows with a range

---
 src/io/mps/convert.rs | 71 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 045a785..7506371 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -443,7 +443,6 @@ fn compute_constraint_types<FI: Zero + PartialEq, FO: From<FI>>(
 ///
 /// When there is a trivial infeasibility due to multiple equality bounds being specified with
 /// different values.
-#[allow(unreachable_patterns)]
 fn compute_b<
     OFI: Sub<Output=OFI> + Abs + PartialOrd + Zero + Clone,
     OFO: From<OFI> + Zero + Abs + PartialOrd + Element + Display,
@@ -465,48 +464,46 @@ where
     // We fill b with options, and then explicitly substitute the default value later.
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
     for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
+        let converted: OFO = value.into();
         match &mut b[i] {
-            None => match &mut constraints[i] {
+            None => b[i] = Some(converted),
+            Some(current) => match rows[i].constraint_type {
+                ConstraintRelation::Equal => if &converted != current {
+                    return Err(Inconsistency::new(
+                        format!("Trivial infeasibility: a constraint can't equal both {} and {}", current, converted),
+                    ))
+                },
+                ConstraintRelation::Greater => if &converted > current {
+                    *current = converted;
+                },
+                ConstraintRelation::Less => if &converted < current {
+                    *current = converted;
+                },
+            },
+        }
+    }
+
+    // Substitute the default value and process the ranges, which also exist for rows that have no
+    // right-hand side specified.
+    let b = b.into_iter().zip(rows).zip(constraints)
+        .map(|((value, row), constraint)| {
+            let value = value.unwrap_or_else(OFO::zero);
+            match constraint {
                 RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
+                    let range_is_negative = *range < OFO::zero();
+                    if range_is_negative {
                         *range = -&*range;
                     }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
+                    // The right-hand side of a range is the upper end.
+                    match (row.constraint_type, range_is_negative) {
+                        (ConstraintRelation::Greater, _) | (ConstraintRelation::Equal, false) => value + &*range,
+                        (ConstraintRelation::Less, _) | (ConstraintRelation::Equal, true) => value,
+                    }
                 },
-                _ => b[i] = Some(value.into()),
+                _ => value,
             }
-            Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
-                let converted: OFO = value.into();
-                match rows[i].constraint_type {
-                    ConstraintRelation::Equal => if &converted != current {
-                        return Err(Inconsistency::new(
-                            format!("Trivial infeasibility: a constraint can't equal both {} and {}", current, converted),
-                        ))
-                    },
-                    ConstraintRelation::Greater => if &converted > current {
-                        *current = converted;
-                    },
-                    ConstraintRelation::Less => if &converted < current {
-                        *current = converted;
-                    },
-                }
-            }
-        }
-    }
-
-    // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+        })
+        .collect();
     Ok(DenseVector::new(b, nr_rows))
 }
 
-- 
2.43.0


From 042fe84e1a18ba8b4b94c8c3e74e4ad921935f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 19/22] fix: values that are written as zero in a column

---
 src/io/mps/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 7506371..177452a 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,12 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            // Values that are zero can be written explicitly, but are not stored.
+            let values = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(_, FO)| v.is_not_zero())
+                .collect();
+            (values, names)
         })
         .unzip();
 
-- 
2.43.0


From 6fa45f9e5a43f71894501f7fa450bce9effdb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:34 +0000
Subject: [PATCH 20/22] fix: reject variable bounds that allow no value while
 reading a program

---
 src/io/mps/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 177452a..ae57d83 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -183,6 +183,13 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_without_value = variable_info.iter().any(|variable| {
+        matches!((&variable.lower_bound, &variable.upper_bound), (Some(lower), Some(upper)) if lower > upper)
+    });
+    if any_without_value {
+        return Err(Inconsistency::new("Trivial infeasibility: a variable has no feasible values."));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 3f1d5c4728253213a79ade8a2097a1c206fc1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:42 +0000
Subject: [PATCH 21/22] fix: deleting a row that was not deleted before

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From 5ed9ef6cb6efc8de0e2122dbfb870df86d754b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 22/22] fix: assertions that reject programs whose rows are all
 redundant

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs     | 2 +-
 .../inverse_maintenance/carry/lower_upper/decomposition/mod.rs  | 1 -
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs   | 2 +-
 src/data/linear_algebra/vector/dense.rs                         | 1 -
 src/data/linear_algebra/vector/sparse.rs                        | 1 -
 5 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index 8926420..7139651 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -218,7 +218,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 03e0f4a..2f0a37b 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -276,7 +276,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..f1d6d56 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,7 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
 
         Self { data: vec![value; len], }
     }
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..276eea0 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
-- 
2.43.0

