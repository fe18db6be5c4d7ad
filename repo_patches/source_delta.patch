From 079d09865fdd07f26648313913cc33f190d973cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 01/39] fix: classify constraints by the real coefficient, not
 its integer truncation

Unqualified abs() on a double resolved to the C int overload, so 1.5
counted as 1 and a constraint such as x0 + 1.5 x1 - x2 == 0 was
classified as a soft selection (or GF2) constraint.
---
 printemps/model_component/constraint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..e35efc4 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -593,7 +593,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                 bool is_plus_or_minus_one_coefficient = true;
                 for (const auto &sensitivity : m_expression.sensitivities()) {
-                    if (abs(sensitivity.second) != 1) {
+                    if (std::abs(sensitivity.second) != 1) {
                         is_plus_or_minus_one_coefficient = false;
                         break;
                     }
@@ -815,7 +815,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             T_Expression                        key_variable_coefficient = 0;
 
             auto constant_value = m_expression.constant_value();
-            if (constant_value != 0 && abs(constant_value) != 1) {
+            if (constant_value != 0 && std::abs(constant_value) != 1) {
                 is_valid = false;
             }
 
@@ -835,12 +835,12 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                     if ((variable_ptr->sense() == VariableSense::Integer ||
                          variable_ptr->sense() == VariableSense::Binary) &&
-                        abs(coefficient) == 2) {
+                        std::abs(coefficient) == 2) {
                         key_variable_ptr         = variable_ptr;
                         key_variable_coefficient = coefficient;
                         number_of_integer_variables_coefficient_two++;
                     } else if (variable_ptr->sense() != VariableSense::Binary ||
-                               abs(coefficient) != 1) {
+                               std::abs(coefficient) != 1) {
                         is_valid = false;
                         break;
                     }
-- 
2.43.0


From 027ffef22e07089191a1eb35267f2242f1372c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:49 +0000
Subject: [PATCH 02/39] fix: keep a fixed selected variable out of selection
 moves

With presolve off, a selection constraint whose selected variable is fixed
left the selection's selected pointer null (crash), and selection moves
tried to unselect the fixed variable, breaking the selection constraint.
---
 printemps/neighborhood/selection_move_generator.h | 4 ++++
 printemps/preprocess/verifier.h                   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..e39da92 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -108,6 +108,10 @@ class SelectionMoveGenerator
                         (*a_flags)[i] = 0;
                         continue;
                     }
+                    if ((*a_moves_ptr)[i].has_fixed_variable()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
 
                     if (a_ACCEPT_ALL) {
                         /** nothing to do */
diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..9bf46fd 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
-- 
2.43.0


From 56cb297c9ea23af3759bf780755184a3bbe607bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 03/39] fix: recompute the constraint's expression attributes
 together with its type

set_bound/setup_constraint_type used the has_only_binary and max-abs-coefficient
flags of an earlier expression.
---
 printemps/model_component/constraint.h | 59 +++++++++++++++-----------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index e35efc4..1609b70 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -234,6 +234,35 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         m_negative_part    = 0;
         m_is_enabled       = true;
 
+        this->setup_expression_attributes();
+        this->clear_constraint_type();
+
+        switch (m_sense) {
+            case ConstraintSense::Less: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = false;
+                break;
+            }
+            case ConstraintSense::Equal: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            case ConstraintSense::Greater: {
+                m_is_less_or_equal    = false;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            default: {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Constraint sense is invalid."));
+            }
+        }
+    }
+
+    /*************************************************************************/
+    inline void setup_expression_attributes(void) {
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,35 +301,15 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
-
-        this->clear_constraint_type();
-
-        switch (m_sense) {
-            case ConstraintSense::Less: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = false;
-                break;
-            }
-            case ConstraintSense::Equal: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            case ConstraintSense::Greater: {
-                m_is_less_or_equal    = false;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            default: {
-                throw std::logic_error(utility::format_error_location(
-                    __FILE__, __LINE__, __func__,
-                    "Constraint sense is invalid."));
-            }
-        }
     }
 
     /*************************************************************************/
     inline void setup_constraint_type(void) {
+        /**
+         * The senses of the variables and the coefficients may have been
+         * changed after the constraint was defined.
+         */
+        this->setup_expression_attributes();
         this->clear_constraint_type();
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
-- 
2.43.0


From 925b61e86afbce1665ca728b7a34dbcd04c3ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 04/39] fix: never alter the same variable twice in a compound
 local search move

---
 .../solver/local_search/core/local_search_core.h  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..a9a88a2 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -470,6 +470,8 @@ class LocalSearchCore {
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
                                                      constraint_ptrs;
+        std::unordered_set<model_component::Variable<T_Variable, T_Expression>*>
+                                                     variable_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +591,7 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            variable_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,6 +623,14 @@ class LocalSearchCore {
                     }
                 }
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (variable_ptrs.find(alteration.first) !=
+                        variable_ptrs.end()) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
@@ -637,6 +648,10 @@ class LocalSearchCore {
                     move_ptr->related_constraint_ptrs.begin(),
                     move_ptr->related_constraint_ptrs.end());
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    variable_ptrs.insert(alteration.first);
+                }
+
                 if (m_option.neighborhood
                         .is_enabled_integer_step_size_adjuster &&
                     move_ptr->sense == neighborhood::MoveSense::Integer) {
-- 
2.43.0


From e2f3d274243318a16bdb1f7fda2bbe0b8fbcbdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 05/39] fix: give user-defined moves their related constraints

Without them the differential evaluation ignored every constraint the move
touches.
---
 .../neighborhood/user_defined_move_generator.h  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/printemps/neighborhood/user_defined_move_generator.h b/printemps/neighborhood/user_defined_move_generator.h
index 10d10b5..544cba7 100644
--- a/printemps/neighborhood/user_defined_move_generator.h
+++ b/printemps/neighborhood/user_defined_move_generator.h
@@ -62,6 +62,23 @@ class UserDefinedMoveGenerator
                 for (auto i = 0; i < MOVES_SIZE; i++) {
                     (*a_moves_ptr)[i].sense = MoveSense::UserDefined;
                     (*a_flags)[i]           = 1;
+
+                    /**
+                     * The incremental evaluation requires all the constraints
+                     * related to the altered variables.
+                     */
+                    auto &related_constraint_ptrs =
+                        (*a_moves_ptr)[i].related_constraint_ptrs;
+                    for (const auto &alteration :
+                         (*a_moves_ptr)[i].alterations) {
+                        const auto &constraint_ptrs =
+                            alteration.first->related_constraint_ptrs();
+                        related_constraint_ptrs.insert(
+                            related_constraint_ptrs.end(),
+                            constraint_ptrs.begin(), constraint_ptrs.end());
+                    }
+                    (*a_moves_ptr)[i].sort_and_unique_related_constraint_ptrs();
+
                     if ((*a_moves_ptr)[i].has_fixed_variable()) {
                         (*a_flags)[i] = 0;
                         continue;
-- 
2.43.0


From 93d1afbf7d7151a75267a3c7a47b6fe499194ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 06/39] fix: compare the dual bound in the user's objective
 direction in the optimality test

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 454439c..9a6ba78 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -150,8 +150,14 @@ class TabuSearchCore {
         const auto& STATE = m_state_manager.state();
 
         if (STATE.number_of_moves > 0) {
+            /**
+             * NOTE: The incumbent objective is stored in the sense of
+             * minimization, whereas the dual bound is stored in the original
+             * sense.
+             */
             if (fabs(m_global_state_ptr->incumbent_holder
-                         .feasible_incumbent_objective() -
+                             .feasible_incumbent_objective() *
+                         m_model_ptr->sign() -
                      m_global_state_ptr->incumbent_holder.dual_bound()) <
                 constant::EPSILON) {
                 m_state_manager.set_termination_status(
-- 
2.43.0


From c5a0bfe454da45d79a4db664e016fe3f94d833df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 07/39] fix: pass the incumbent objective in the user's
 direction to online bounding

---
 .../solver/tabu_search/controller/tabu_search_controller.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..4ac0ca3 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -958,7 +958,8 @@ class TabuSearchController
                 !state.previous_is_feasible_incumbent_updated) {
                 this->update_variable_bounds(
                     this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                            .feasible_incumbent_objective() *
+                        this->m_model_ptr->sign(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From e199d0a81ba1e3f8f44ba25356e9fef82a10d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 08/39] fix: choose the bounded side of the objective in
 update_variable_bounds for maximization

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..78b4cc1 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1679,7 +1679,7 @@ class Model {
                                        const bool   a_IS_PRIMAL,
                                        const bool   a_IS_ENABLED_PRINT) {
         model_component::Constraint<T_Variable, T_Expression> constraint;
-        if (m_is_minimization && a_IS_PRIMAL) {
+        if (m_is_minimization == a_IS_PRIMAL) {
             constraint = m_objective.expression() <= a_OBJECTIVE;
         } else {
             constraint = m_objective.expression() >= a_OBJECTIVE;
-- 
2.43.0


From 74a43805e891d3360d9bf5796f7965fefc85c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:35 +0000
Subject: [PATCH 09/39] fix: give the multiplier term of the lagrangian the
 objective's sign for maximization

For maximization the dual bound could become smaller than attainable objective
values.
---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 78b4cc1..1e1334b 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3032,7 +3032,7 @@ class Model {
             lagrangian +=
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
-                constraint_ptr->constraint_value();
+                constraint_ptr->constraint_value() * this->sign();
         }
         return lagrangian;
     }
-- 
2.43.0


From 24ff0863945f9243a4fecdeaf9c1bb33206869ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 10/39] fix: print the violation of the incumbent without the
 objective's sign

---
 printemps/solver/lagrange_dual/core/lagrange_dual_core.h | 4 ++--
 printemps/solver/local_search/core/local_search_core.h   | 4 ++--
 printemps/solver/tabu_search/core/tabu_search_core.h     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
index 251bed1..2b468c7 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
@@ -200,7 +200,7 @@ class LagrangeDualCore {
             color_current_feasible_end.c_str(),
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
 
@@ -285,7 +285,7 @@ class LagrangeDualCore {
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_update_end.c_str(),
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
 
diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index a9a88a2..d502ac7 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -287,7 +287,7 @@ class LocalSearchCore {
             color_current_feasible_end.c_str(),
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
 
@@ -372,7 +372,7 @@ class LocalSearchCore {
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_update_end.c_str(),
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
 
diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 9a6ba78..e5b1261 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -634,7 +634,7 @@ class TabuSearchCore {
             color_current_feasible_end.c_str(),
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
 
@@ -743,7 +743,7 @@ class TabuSearchCore {
             INCUMBENT_SOLUTION_SCORE.objective * SIGN,
             color_incumbent_update_end.c_str(),
             color_incumbent_feasible_begin.c_str(),
-            INCUMBENT_SOLUTION_SCORE.total_violation * SIGN,
+            INCUMBENT_SOLUTION_SCORE.total_violation,
             color_incumbent_feasible_end.c_str());
     }
     /*************************************************************************/
-- 
2.43.0


From 24703d17a0632d39d6642988db62ecd3467447ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 11/39] fix: keep lagrangian coefficients in the minimization
 sense used by the search

---
 printemps/solver/lagrange_dual/core/lagrange_dual_core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
index 2b468c7..f756e12 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
@@ -451,7 +451,7 @@ class LagrangeDualCore {
                                    SENSITIVITY * SIGN;
                 }
 
-                variable_ptrs[i]->set_lagrangian_coefficient(coefficient);
+                variable_ptrs[i]->set_lagrangian_coefficient(coefficient * SIGN);
                 variable_ptrs[i]->set_lower_or_upper_bound(
                     (coefficient > 0) == (m_model_ptr->is_minimization()));
             }
-- 
2.43.0


From d9b38dcf6d1e87d03e38fd854cf8f43a1bae6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:35 +0000
Subject: [PATCH 12/39] fix: judge the improvement of the objective in the
 optimization direction

---
 .../controller/tabu_search_controller_state_manager.h     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 2ac9809..9998d72 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -517,10 +517,14 @@ class TabuSearchControllerStateManager {
 
     /*************************************************************************/
     inline void update_is_improved(void) {
+        const auto SIGN = m_model_ptr->sign();
+
         m_state.is_objective_improved =
             (m_global_state_ptr->incumbent_holder
-                 .local_augmented_incumbent_solution()
-                 .objective < m_state.previous_solution.objective);
+                     .local_augmented_incumbent_solution()
+                     .objective *
+                 SIGN <
+             m_state.previous_solution.objective * SIGN);
 
         m_state.is_feasibility_improved =
             (m_global_state_ptr->incumbent_holder
-- 
2.43.0


From 4d28e9e3dd0f8199e7ecf58965c167f5164f2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:35 +0000
Subject: [PATCH 13/39] fix: include the constant of the objective in the
 exported linear programming instance

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 1e1334b..d4dd5c9 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1463,7 +1463,7 @@ class Model {
         using utility::sparse::SparseMatrix;
         using utility::sparse::Vector;
 
-        double objective_offset = 0.0;
+        double objective_offset = m_objective.expression().constant_value();
         for (const auto &variable_ptr :
              m_variable_reference.fixed_variable_ptrs) {
             objective_offset +=
-- 
2.43.0


From 98e994d8b07ce814e154ceb6f2f2c4cf26b43fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:19 +0000
Subject: [PATCH 14/39] fix: norm of a matrix without columns

setup_norm() dereferenced the end iterator when the matrix has no column, which
happens when presolve disables every constraint (the transposed matrix) or fixes
every variable and PDLP is enabled.
---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..51b569a 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one =
+            c_temp.empty() ? 0.0
+                           : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From 9d775f178b6dc73f1c3577d889cd10cd0ad761b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 15/39] fix: fix an independent variable at a value within its
 bounds

A variable that appears in neither constraints nor objective was fixed at 0 even
if its bounds exclude 0; the verifier then rejected the valid model.
---
 printemps/preprocess/problem_size_reducer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..bb87f5e 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,17 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            const auto FIX_VALUE =
+                std::min(std::max(static_cast<T_Variable>(0),
+                                  a_variable_ptr->lower_bound()),
+                         a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From a89e4974944c82c6433878a5519a74ee6cf78d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 16/39] fix: do not truncate the value forced by a singleton
 equality

0.1x == 0.3 fixed x at 2 (0.3 / 0.1 = 2.999...), removed the constraint and
reported the violating solution as feasible; 2x == 3 and values outside the
bounds of the variable were handled alike.
---
 printemps/preprocess/problem_size_reducer.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index bb87f5e..ee1537a 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -301,7 +301,16 @@ class ProblemSizeReducer {
                 /**
                  * If the singleton constraint is defined by an equality as
                  * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * The constraint is kept if the variable cannot take -b/a.
                  */
+                const auto BOUND_ROUND = std::round(bound_temp);
+                if (fabs(bound_temp - BOUND_ROUND) > constant::EPSILON_10 ||
+                    BOUND_ROUND < variable_lower_bound ||
+                    BOUND_ROUND > variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
@@ -310,7 +319,7 @@ class ProblemSizeReducer {
                         std::to_string(bound_temp) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(static_cast<T_Variable>(BOUND_ROUND));
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
-- 
2.43.0


From bb3fd67c1d8fa677670c063fe76a4914385187ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 17/39] fix: keep a singleton inequality whose bound is too
 large to be imposed

x <= 200000 with x in [0, 1000000] was removed as redundant without tightening
the bound of x, and x = 1000000 was reported as a feasible solution.
---
 printemps/preprocess/problem_size_reducer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index ee1537a..3618b3d 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -360,6 +360,9 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(variable_lower_bound, bound_floor);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_floor < variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
@@ -407,6 +410,9 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(bound_ceil, variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_ceil > variable_lower_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
-- 
2.43.0


From 2797336ae5e36b3c7a063637e7ec8045573a6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:36 +0000
Subject: [PATCH 18/39] fix: compare tightened bounds before converting them to
 integers

The bound implied by a constraint with unbounded variables does not fit into an
int (100 * y with a free y); converting it first is undefined and, without
optimization, made set_bound() reject the model.
---
 printemps/preprocess/problem_size_reducer.h | 48 ++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 3618b3d..14a003e 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -337,11 +337,10 @@ class ProblemSizeReducer {
                  * ax+b<=0 with a>0 (or ax+b>=0 with a<0), the lower bound of
                  * the variable will be tightened by floor(-b/a).
                  */
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor = std::floor(bound_temp);
 
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    fabs(bound_floor) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(
                             "The upper bound of the variable " +
@@ -357,7 +356,8 @@ class ProblemSizeReducer {
                                 std::to_string(bound_floor) + ".",
                             a_IS_ENABLED_PRINT);
                     }
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(variable_lower_bound,
+                                            static_cast<T_Variable>(bound_floor));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 } else if (bound_floor < variable_upper_bound) {
@@ -387,11 +387,10 @@ class ProblemSizeReducer {
                  * ax+b>=0 with a>0 (or ax+b<=0 with a<0), the upper bound of
                  * the variable will be tightened by ceil(-b/a).
                  */
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil = std::ceil(bound_temp);
 
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    fabs(bound_ceil) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(  //
                             "The lower bound of the variable " +
@@ -407,7 +406,8 @@ class ProblemSizeReducer {
                                 std::to_string(bound_ceil) + ".",
                             a_IS_ENABLED_PRINT);
                     }
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(static_cast<T_Variable>(bound_ceil),
+                                            variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 } else if (bound_ceil > variable_lower_bound) {
@@ -446,16 +446,16 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil = std::ceil(bound_temp);
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
                             std::to_string(bound_ceil) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(static_cast<T_Variable>(bound_ceil),
+                                            variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -464,16 +464,16 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor = std::floor(bound_temp);
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
                             std::to_string(bound_floor) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(variable_lower_bound,
+                                            static_cast<T_Variable>(bound_floor));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -492,16 +492,16 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor = std::floor(bound_temp);
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
                             std::to_string(bound_floor) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(variable_lower_bound,
+                                            static_cast<T_Variable>(bound_floor));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -510,16 +510,16 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil = std::ceil(bound_temp);
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
                             std::to_string(bound_ceil) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(static_cast<T_Variable>(bound_ceil),
+                                            variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
-- 
2.43.0


From 6550ed4c72c1ab85817731a3d65fef6aaf406c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:36 +0000
Subject: [PATCH 19/39] fix: tolerate rounding errors when tightening variable
 bounds

0.1x + 0.2y <= 0.3 with y >= 1 tightened the upper bound of x to
floor(0.999...) = 0 although x = 1, y = 1 satisfies the constraint.
---
 printemps/preprocess/problem_size_reducer.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 14a003e..0d2745a 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -337,7 +337,8 @@ class ProblemSizeReducer {
                  * ax+b<=0 with a>0 (or ax+b>=0 with a<0), the lower bound of
                  * the variable will be tightened by floor(-b/a).
                  */
-                const double bound_floor = std::floor(bound_temp);
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON_10);
 
                 if (bound_floor < variable_upper_bound &&
                     fabs(bound_floor) < BOUND_LIMIT) {
@@ -387,7 +388,8 @@ class ProblemSizeReducer {
                  * ax+b>=0 with a>0 (or ax+b<=0 with a<0), the upper bound of
                  * the variable will be tightened by ceil(-b/a).
                  */
-                const double bound_ceil = std::ceil(bound_temp);
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON_10);
 
                 if (bound_ceil > variable_lower_bound &&
                     fabs(bound_ceil) < BOUND_LIMIT) {
@@ -446,7 +448,8 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                const double bound_ceil = std::ceil(bound_temp);
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON_10);
                 if (bound_ceil > variable_lower_bound &&
                     fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
@@ -464,7 +467,8 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                const double bound_floor = std::floor(bound_temp);
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON_10);
                 if (bound_floor < variable_upper_bound &&
                     fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
@@ -492,7 +496,8 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                const double bound_floor = std::floor(bound_temp);
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON_10);
                 if (bound_floor < variable_upper_bound &&
                     fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
@@ -510,7 +515,8 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                const double bound_ceil = std::ceil(bound_temp);
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON_10);
                 if (bound_ceil > variable_lower_bound &&
                     fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
-- 
2.43.0


From c02ce826118e4cdd85842481888a4086229f6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:18 +0000
Subject: [PATCH 20/39] fix: keep improving variables of set covering
 constraints

maximize x0 + x1 + x2 subject to x0 + x1 + x2 >= 1 returned 1 instead of 3
because all but one variable with the same column were fixed at 0.
---
 printemps/preprocess/problem_size_reducer.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 0d2745a..3a8d821 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -703,6 +703,26 @@ class ProblemSizeReducer {
                     continue;
                 }
 
+                /**
+                 * If the variable j improves the objective, it is redundant
+                 * only if at most one of the variables i and j can be 1, which
+                 * set covering constraints do not imply.
+                 */
+                const auto &RELATED_CONSTRAINT_PTRS =
+                    variable_ptrs[j]->related_constraint_ptrs();
+                if (variable_ptrs[j]->objective_sensitivity() *
+                            m_model_ptr->sign() <
+                        0 &&
+                    std::none_of(RELATED_CONSTRAINT_PTRS.begin(),
+                                 RELATED_CONSTRAINT_PTRS.end(),
+                                 [](const auto &a_CONSTRAINT_PTR) {
+                                     return a_CONSTRAINT_PTR
+                                         ->is_less_or_equal();
+                                 })) {
+                    j++;
+                    continue;
+                }
+
                 /**
                  * If the constraint coefficient pattern of the variables i and
                  * j is same, fix the value of the variable j at 0.
-- 
2.43.0


From a586dfadd9b6becd1b8c97781ac82ff2aef7440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:18 +0000
Subject: [PATCH 21/39] fix: accumulate the fixed terms of an expression
 without truncation

0.5y + x <= 2.2 with y fixed at 1 was turned into x <= 2 because the fixed part
0.5 was truncated to 0; the violating solution was reported as feasible.
---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From 498c148c0946ff6569d8b7818633410e6144c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:03 +0000
Subject: [PATCH 22/39] fix: reset the feasible-solution indication when an
 archive is set up

---
 printemps/solution/solution_archive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/solution/solution_archive.h b/printemps/solution/solution_archive.h
index 3977660..d233860 100644
--- a/printemps/solution/solution_archive.h
+++ b/printemps/solution/solution_archive.h
@@ -67,6 +67,7 @@ class SolutionArchive {
         m_name                  = a_NAME;
         m_number_of_variables   = a_NUMBER_OF_VARIABLES;
         m_number_of_constraints = a_NUMBER_OF_CONSTRAINTS;
+        m_has_feasible_solution = false;
     }
 
     /*************************************************************************/
-- 
2.43.0


From 4ad384596907cb3a8db0a1a45fde7132a9d1099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 23/39] fix: keep the constant when assigning an
 expression-like object to an expression

---
 printemps/model_component/expression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index c7316d3..bfb9e12 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -500,8 +500,9 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     template <template <class, class> class T_ExpressionLike>
     inline Expression<T_Variable, T_Expression> &operator=(
         const T_ExpressionLike<T_Variable, T_Expression> &a_EXPRESSION_LIKE) {
-        m_sensitivities  = a_EXPRESSION_LIKE.to_expression().sensitivities();
-        m_constant_value = 0;
+        const auto EXPRESSION = a_EXPRESSION_LIKE.to_expression();
+        m_sensitivities       = EXPRESSION.sensitivities();
+        m_constant_value      = EXPRESSION.constant_value();
         return *this;
     }
 
-- 
2.43.0


From 6069541a182849265030b7e0a24bf41bba02e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 24/39] fix: do not insert into the shared variable map from
 the parallel loop of import_mps

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index d4dd5c9..cb3f9ad 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3525,7 +3525,7 @@ class Model {
                 const auto &       VARIABLE_NAME = sensitivity.first;
                 const T_Expression COEFFICIENT =
                     static_cast<T_Expression>(sensitivity.second);
-                expression_sensitivities[variable_ptrs[VARIABLE_NAME]] =
+                expression_sensitivities[variable_ptrs.at(VARIABLE_NAME)] =
                     COEFFICIENT;
             }
             expression.set_sensitivities(expression_sensitivities);
-- 
2.43.0


From 1d4f30e57db9cd5bd4066efa9d2a447427462419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 25/39] fix: write the bounds of half- and unbounded variables
 in write_mps

---
 printemps/model/model.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index cb3f9ad..7ff1b7c 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3680,12 +3680,19 @@ class Model {
                     ofs << "    FX    bnd    " << VARIABLE_NAME << "     "
                         << variable.value() << std::endl;
                 } else {
-                    if (variable.lower_bound() != constant::INT_HALF_MIN) {
-                        if (variable.lower_bound() != 0) {
-                            ofs << "    LO    bnd    " << VARIABLE_NAME
-                                << "    " << variable.lower_bound()
+                    if (variable.lower_bound() == constant::INT_HALF_MIN) {
+                        if (variable.upper_bound() == constant::INT_HALF_MAX) {
+                            ofs << "    FR    bnd    " << VARIABLE_NAME
+                                << std::endl;
+                        } else {
+                            ofs << "    MI    bnd    " << VARIABLE_NAME
                                 << std::endl;
                         }
+                    } else if (variable.lower_bound() != 0 ||
+                               variable.upper_bound() ==
+                                   constant::INT_HALF_MAX) {
+                        ofs << "    LO    bnd    " << VARIABLE_NAME << "    "
+                            << variable.lower_bound() << std::endl;
                     }
                     if (variable.upper_bound() != constant::INT_HALF_MAX) {
                         ofs << "    UP    bnd    " << VARIABLE_NAME << "    "
-- 
2.43.0


From 9885b459ff0879ca1df6f888448f418970c4dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 26/39] fix: write the coefficients of an MPS instance with
 full precision

---
 printemps/model/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 7ff1b7c..d9f7f44 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3569,6 +3569,7 @@ class Model {
     /*********************************************************************/
     void write_mps(const std::string &a_FILE_NAME) {
         std::ofstream ofs(a_FILE_NAME);
+        ofs.precision(std::numeric_limits<double>::digits10);
         /**
          * Determine unique name of variables and constraints.
          */
-- 
2.43.0


From 4f546f9fde67c2ba9eebd653c3992e631f223e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 27/39] fix: write long long elements of a JSON array

---
 printemps/utility/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index e7d5d8b..22d3446 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -362,12 +362,12 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
             /**
              * Write long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level) << std::any_cast<long long>(element);
         } else if (element.type() == typeid(unsigned long long)) {
             /**
              * Write unsigned long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level) << std::any_cast<unsigned long long>(element);
         } else if (element.type() == typeid(float)) {
             /**
              * Write float type element.
-- 
2.43.0


From 6c11b080b27e88cefb3865dcf8d38d3136648603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 28/39] fix: reset the objective sensitivities of variables
 that left the objective

---
 printemps/model/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index d9f7f44..13f7c38 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -969,6 +969,11 @@ class Model {
 
     /*************************************************************************/
     inline void setup_variable_objective_sensitivities(void) {
+        for (auto &&proxy : m_variable_proxies) {
+            for (auto &&variable : proxy.flat_indexed_variables()) {
+                variable.set_objective_sensitivity(0);
+            }
+        }
         for (auto &&sensitivity : m_objective.expression().sensitivities()) {
             sensitivity.first->set_objective_sensitivity(sensitivity.second);
         }
-- 
2.43.0


From b7b920489b261d5eadc4d1497451b140d9112324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:20 +0000
Subject: [PATCH 29/39] fix: reject reversed bounds before creating the
 variables

---
 printemps/model/model.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 13f7c38..8968796 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -201,6 +201,15 @@ class Model {
         &create_variable(const std::string &a_NAME,         //
                          const T_Variable   a_LOWER_BOUND,  //
                          const T_Variable   a_UPPER_BOUND) {
+        if (a_LOWER_BOUND > a_UPPER_BOUND) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "The specified lower bound is bigger than the specified upper "
+                "bound. lower bound: " +
+                    std::to_string(a_LOWER_BOUND) +
+                    ", upper bound: " + std::to_string(a_UPPER_BOUND)));
+        }
+
         auto &variable_proxy = this->create_variable(a_NAME);
         variable_proxy.set_bound(a_LOWER_BOUND, a_UPPER_BOUND);
 
@@ -243,6 +252,15 @@ class Model {
                           const int          a_NUMBER_OF_ELEMENTS,  //
                           const T_Variable   a_LOWER_BOUND,         //
                           const T_Variable   a_UPPER_BOUND) {
+        if (a_LOWER_BOUND > a_UPPER_BOUND) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "The specified lower bound is bigger than the specified upper "
+                "bound. lower bound: " +
+                    std::to_string(a_LOWER_BOUND) +
+                    ", upper bound: " + std::to_string(a_UPPER_BOUND)));
+        }
+
         auto &variable_proxy = create_variables(a_NAME, a_NUMBER_OF_ELEMENTS);
         variable_proxy.set_bound(a_LOWER_BOUND, a_UPPER_BOUND);
 
@@ -286,6 +304,15 @@ class Model {
                           const std::vector<int> &a_SHAPE,        //
                           const T_Variable        a_LOWER_BOUND,  //
                           const T_Variable        a_UPPER_BOUND) {
+        if (a_LOWER_BOUND > a_UPPER_BOUND) {
+            throw std::logic_error(utility::format_error_location(
+                __FILE__, __LINE__, __func__,
+                "The specified lower bound is bigger than the specified upper "
+                "bound. lower bound: " +
+                    std::to_string(a_LOWER_BOUND) +
+                    ", upper bound: " + std::to_string(a_UPPER_BOUND)));
+        }
+
         auto &variable_proxy = create_variables(a_NAME, a_SHAPE);
         variable_proxy.set_bound(a_LOWER_BOUND, a_UPPER_BOUND);
 
-- 
2.43.0


From a752be3df45f363916a04b9524e38ac29eef6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:20 +0000
Subject: [PATCH 30/39] fix: give RANGES records of an MPS file their defined
 sides

---
 printemps/mps/mps.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..11d50c5 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -264,30 +264,39 @@ struct MPS {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Greater;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs + fabs(range);
+                                    this->constraints[name].rhs - fabs(range);
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Greater: {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Less;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs - fabs(range);
+                                    this->constraints[name].rhs + fabs(range);
+                                this->number_of_lesser_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Equal: {
                                 if (range > 0) {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Greater;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Less;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs +
                                         fabs(range);
                                 } else {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Less;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Greater;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs -
                                         fabs(range);
                                 }
+                                this->number_of_equal_constraints--;
+                                this->number_of_lesser_constraints++;
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             default: {
@@ -300,7 +309,6 @@ struct MPS {
                         }
 
                         this->constraint_names.push_back(name_new);
-                        this->number_of_lesser_constraints++;
                     }
                     break;
                 }
-- 
2.43.0


From a1cda02f3c89296a7875dbb7ea4ece0d5c49f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:20 +0000
Subject: [PATCH 31/39] fix: round fractional MPS bounds inward and limit them
 to the integer range

---
 printemps/mps/mps.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 11d50c5..cc0c4a7 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -366,12 +366,21 @@ struct MPS {
                         }
                     } else if (ITEMS_SIZE == 4) {
                         double continuous_value = atof(items[3].c_str());
-                        int integer_value = static_cast<int>(continuous_value);
+                        const double CLAMPED_VALUE =
+                            std::max<double>(
+                                constant::INT_HALF_MIN,
+                                std::min<double>(constant::INT_HALF_MAX,
+                                                 continuous_value));
+                        int integer_value = static_cast<int>(CLAMPED_VALUE);
+                        int integer_ceil =
+                            static_cast<int>(ceil(CLAMPED_VALUE));
+                        int integer_floor =
+                            static_cast<int>(floor(CLAMPED_VALUE));
 
                         if (category == "LO") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_ceil;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "LI") {
@@ -379,13 +388,13 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_ceil;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "UP") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_floor;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "UI") {
@@ -393,7 +402,7 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_floor;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "FX") {
-- 
2.43.0


From e344f441b655706a7708c75e766397af6690c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 32/39] fix: compare the violations of candidate initial
 selections without truncation

---
 printemps/preprocess/verifier.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 9bf46fd..7408eb5 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -207,9 +207,9 @@ class Verifier {
 
                 model_component::Variable<T_Variable, T_Expression>
                     *selected_variable_ptr = nullptr;
-                int  best_violation        = std::numeric_limits<int>::max();
+                double best_violation = std::numeric_limits<double>::max();
                 for (auto &&variable_ptr : selected_variable_ptrs) {
-                    int violation = 0;
+                    double violation = 0.0;
                     for (auto &&sensitivity :
                          variable_ptr->constraint_sensitivities()) {
                         const auto CONSTRAINT_VALUE =
@@ -281,12 +281,12 @@ class Verifier {
 
                 model_component::Variable<T_Variable, T_Expression>
                     *selected_variable_ptr = nullptr;
-                int  best_violation        = std::numeric_limits<int>::max();
+                double best_violation = std::numeric_limits<double>::max();
                 for (auto &&variable_ptr : selection.variable_ptrs) {
                     if (variable_ptr->is_fixed()) {
                         continue;
                     }
-                    int violation = 0;
+                    double violation = 0.0;
                     for (auto &&sensitivity :
                          variable_ptr->constraint_sensitivities()) {
                         const auto CONSTRAINT_VALUE =
-- 
2.43.0


From ddf1081b63933a5c0b6b00e7877ef3d6f87fbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:46 +0000
Subject: [PATCH 33/39] fix: define dependent variables only by equations with
 integral coefficients

---
 printemps/preprocess/dependent_variable_extractor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 5667415..30c84a9 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -181,7 +181,12 @@ class DependentVariableExtractor {
             key_variable_ptr_counts;
 
         for (auto i = 0; i < CONSTRAINTS_SIZE; i++) {
-            if (!constraint_ptrs[i]->is_enabled()) {
+            /**
+             * A dependent variable takes only integral values, so the equation
+             * which defines it must have integral coefficients and constant.
+             */
+            if (!constraint_ptrs[i]->is_enabled() ||
+                !constraint_ptrs[i]->is_integer()) {
                 flags[i] = false;
                 continue;
             }
-- 
2.43.0


From 0c7efd964ac49e111e5a5ecaa8185fad9191bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 34/39] fix: do not let a dependent variable depend on itself
 through several equations

---
 .../preprocess/dependent_variable_extractor.h | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 30c84a9..d9af7fe 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -176,6 +176,7 @@ class DependentVariableExtractor {
             }
         }
         std::vector<bool> flags(CONSTRAINTS_SIZE, true);
+        std::vector<int>  accepted_indices;
         std::unordered_map<
             model_component::Variable<T_Variable, T_Expression> *, int>
             key_variable_ptr_counts;
@@ -190,14 +191,33 @@ class DependentVariableExtractor {
                 flags[i] = false;
                 continue;
             }
+
+            /**
+             * Skip the constraint if its key variable would depend on itself
+             * through the constraints accepted so far.
+             */
+            std::vector<int>  stack = {i};
+            std::vector<bool> is_visited(CONSTRAINTS_SIZE, false);
+            while (flags[i] && !stack.empty()) {
+                const int K = stack.back();
+                stack.pop_back();
+                for (const auto &J : accepted_indices) {
+                    if (is_visited[J] || adj[K][J] == 0) {
+                        continue;
+                    }
+                    if (adj[J][i] > 0) {
+                        flags[i] = false;
+                        break;
+                    }
+                    is_visited[J] = true;
+                    stack.push_back(J);
+                }
+            }
             if (!flags[i]) {
                 continue;
             }
-            for (auto j = i + 1; j < CONSTRAINTS_SIZE; j++) {
-                if (adj[i][j] > 0 && adj[j][i] > 0) {
-                    flags[j] = false;
-                }
-            }
+            accepted_indices.push_back(i);
+
             auto key_variable_ptr = constraint_ptrs[i]->key_variable_ptr();
             if (key_variable_ptr_counts.find(key_variable_ptr) !=
                 key_variable_ptr_counts.end()) {
-- 
2.43.0


From c67b784fc848267015d6557432a05ea4c2d56a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:54 +0000
Subject: [PATCH 35/39] fix: keep the requested number of threads when
 automatic parallelization is off

The outer loop replaced the user's number_of_threads_move_update and
number_of_threads_move_evaluation by omp_get_max_threads() after the first
inner search.
---
 .../controller/tabu_search_controller_state_manager.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 9998d72..1f731da 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -1419,7 +1419,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_update_parallelization =
                 m_state.number_of_threads_move_update > 1;
         } else {
-            m_state.number_of_threads_move_update = omp_get_max_threads();
+            m_state.number_of_threads_move_update =
+                m_option.parallel.number_of_threads_move_update;
             m_state.is_enabled_move_update_parallelization =
                 m_option.parallel.is_enabled_move_update_parallelization;
         }
@@ -1452,7 +1453,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_evaluation_parallelization =
                 m_state.number_of_threads_move_evaluation > 1;
         } else {
-            m_state.number_of_threads_move_evaluation = omp_get_max_threads();
+            m_state.number_of_threads_move_evaluation =
+                m_option.parallel.number_of_threads_move_evaluation;
             m_state.is_enabled_move_evaluation_parallelization =
                 m_option.parallel.is_enabled_move_evaluation_parallelization;
         }
-- 
2.43.0


From 7172e669485b00b5a1d266002290bbc8fe8cc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:26 +0000
Subject: [PATCH 36/39] fix: include the objective offset in the objective
 range PDLP uses to detect infeasibility

---
 printemps/solver/pdlp/core/pdlp_core_state_manager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/pdlp/core/pdlp_core_state_manager.h b/printemps/solver/pdlp/core/pdlp_core_state_manager.h
index b342368..56d46b3 100755
--- a/printemps/solver/pdlp/core/pdlp_core_state_manager.h
+++ b/printemps/solver/pdlp/core/pdlp_core_state_manager.h
@@ -56,8 +56,10 @@ class PDLPCoreStateManager {
         m_state.dual.objective_coefficients_norm =
             m_instance_ptr->dual_objective_coefficients.norm();
 
-        m_state.primal.objective_lower_bound = 0.0;
-        m_state.primal.objective_upper_bound = 0.0;
+        m_state.primal.objective_lower_bound =
+            m_instance_ptr->objective_offset;
+        m_state.primal.objective_upper_bound =
+            m_instance_ptr->objective_offset;
         for (auto i = 0; i < NUMBER_OF_COLUMNS; i++) {
             const auto COEFFICIENT =
                 m_instance_ptr->primal_objective_coefficients[i];
-- 
2.43.0


From e1675c649edf00c629f8694127cdac204cf76544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:48 +0000
Subject: [PATCH 37/39] fix: divide the constant by the unit coefficient in
 constant-sum and constant-difference integer moves

---
 .../neighborhood/constant_difference_integers_move_generator.h  | 2 +-
 printemps/neighborhood/constant_sum_integers_move_generator.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/neighborhood/constant_difference_integers_move_generator.h b/printemps/neighborhood/constant_difference_integers_move_generator.h
index 1e91955..d4834db 100644
--- a/printemps/neighborhood/constant_difference_integers_move_generator.h
+++ b/printemps/neighborhood/constant_difference_integers_move_generator.h
@@ -80,7 +80,7 @@ class ConstantDifferenceIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                binomials[i].constant_value / binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
diff --git a/printemps/neighborhood/constant_sum_integers_move_generator.h b/printemps/neighborhood/constant_sum_integers_move_generator.h
index f783b7c..39a7b3a 100644
--- a/printemps/neighborhood/constant_sum_integers_move_generator.h
+++ b/printemps/neighborhood/constant_sum_integers_move_generator.h
@@ -80,7 +80,7 @@ class ConstantSumIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                binomials[i].constant_value / binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From 638600b80fa792382f301d035ef031ec85d97e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:48 +0000
Subject: [PATCH 38/39] fix: step constant-ratio integer moves from the
 variable that is altered

---
 .../neighborhood/constant_ratio_integers_move_generator.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/printemps/neighborhood/constant_ratio_integers_move_generator.h b/printemps/neighborhood/constant_ratio_integers_move_generator.h
index b8fa65c..f1bcd91 100644
--- a/printemps/neighborhood/constant_ratio_integers_move_generator.h
+++ b/printemps/neighborhood/constant_ratio_integers_move_generator.h
@@ -107,7 +107,7 @@ class ConstantRatioIntegersMoveGenerator
          * Setup move updater.
          */
         auto move_updater =  //
-            [binomials, coefficients, BINOMIALS_SIZE](
+            [coefficients, BINOMIALS_SIZE](
                 auto *     a_moves_ptr,                      //
                 auto *     a_flags,                          //
                 const bool a_ACCEPT_ALL,                     //
@@ -131,7 +131,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() + 1;
+                            alterations[0].first->value() + 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
@@ -140,7 +140,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() - 1;
+                            alterations[0].first->value() - 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
-- 
2.43.0


From 8614201dccde3632b6783fbfce3d0726fb823c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:48 +0000
Subject: [PATCH 39/39] fix: classify a trinomial as XNOR only when its
 constant term is zero

---
 printemps/model_component/constraint.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 1609b70..a06dc9a 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -487,6 +487,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
         /// Trinomial XNOR
         if (m_expression.sensitivities().size() == 3 &&
+            m_expression.constant_value() == 0 &&
             m_sense == ConstraintSense::Equal) {
             bool is_valid = true;
             for (const auto &sensitivity : m_expression.sensitivities()) {
-- 
2.43.0

