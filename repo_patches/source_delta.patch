From 3cfa63202c2999096f7f323906d0ae8f57a93bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 01/16] fix: reject negative variable indices in inequality
 constraints

---
 include/mini_opt/qp.hpp | 1 +
 source/qp.cc            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..66d7407 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -68,6 +68,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : p_->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is negative");
     F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
   }
 }
-- 
2.43.0


From c7a6db7bb228315c87a05be7cb7faf3c02c18875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 02/16] fix: validate the QP before Setup modifies the interior
 point solver

---
 source/qp.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 66d7407..577b862 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -20,19 +20,27 @@ QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(pr
 void QPInteriorPointSolver::Setup(const QP* const problem) {
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
 
-  p_ = problem;
-  F_ASSERT_EQ(p_->G.rows(), p_->G.cols(), "G must be square");
-  F_ASSERT_EQ(p_->G.rows(), p_->c.rows(), "Dims of G and c must match");
-  F_ASSERT_EQ(p_->A_eq.rows(), p_->b_eq.rows(), "Rows of A_e and b_e must match");
+  F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
+  F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(problem->A_eq.rows(), problem->b_eq.rows(), "Rows of A_e and b_e must match");
 
   // If equality constraints were specified, we must be able to multiply A*x
-  if (p_->A_eq.size() > 0) {
-    F_ASSERT_EQ(p_->A_eq.cols(), p_->G.rows());
+  if (problem->A_eq.size() > 0) {
+    F_ASSERT_EQ(problem->A_eq.cols(), problem->G.rows());
   } else {
-    F_ASSERT_EQ(p_->A_eq.rows(), 0);
-    F_ASSERT_EQ(p_->b_eq.rows(), 0);
+    F_ASSERT_EQ(problem->A_eq.rows(), 0);
+    F_ASSERT_EQ(problem->b_eq.rows(), 0);
+  }
+
+  // check indices up front
+  for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is negative");
+    F_ASSERT_LT(c.variable, problem->G.rows(), "Constraint index is out of bounds");
   }
 
+  // Now that we know it is valid, store the problem.
+  p_ = problem;
+
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
   dims_.N = static_cast<int>(p_->G.rows());
   dims_.M = static_cast<int>(p_->constraints.size());
@@ -65,12 +73,6 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
   H_.setConstant(nan);
   H_inv_.setConstant(nan);
 #endif
-
-  // check indices up front
-  for (const LinearInequalityConstraint& c : p_->constraints) {
-    F_ASSERT_GE(c.variable, 0, "Constraint index is negative");
-    F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
-  }
 }
 
 // Assert params are in valid range.
-- 
2.43.0


From 4c14e3ff1dc4f029f8229f0d6f2c3d55e4bf2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 03/16] fix: check dimensions in
 QPInteriorPointSolver::SetVariables

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 577b862..ec472c1 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -221,7 +221,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), variables_.rows(), "Variables must match the dimensions of the problem");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From 4bd0482ef7143fe9b2fd58ac4a13e8d16a367f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 04/16] fix: check problem dimensions in QPNullSpaceSolver

---
 source/qp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index ec472c1..aa7a674 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -685,6 +685,9 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows());
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From 47f9b26db035b60dbb864e793877ba4ee1ee3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/16] fix: solve only the independent equality constraints in
 QPNullSpaceSolver

---
 source/qp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index aa7a674..875980c 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -706,13 +706,13 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The invertible part of R (there may be fewer than `num_equality_constraints` independent rows).
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From c049d6ae496ce8ad872ad033f70b5b1958a99be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/16] fix: reject initial variables that do not match the
 problem dimension

---
 source/nonlinear.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..ecac66b 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,9 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  // A custom retraction may use a different parameterization than the tangent space.
+  F_ASSERT(custom_retraction_ || variables.rows() == p_->dimension,
+           "Wrong number of variables: {}", variables.rows());
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From c19ef8d923318a4595f4e091e5ef44550953be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/16] fix: grow the error buffer when residuals are added
 after construction

---
 source/nonlinear.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index ecac66b..a3610d4 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -282,6 +282,17 @@ bool ConstrainedNonlinearLeastSquares::QPWasIndefinite(
 Errors ConstrainedNonlinearLeastSquares::EvaluateNonlinearErrors(const Eigen::VectorXd& vars) {
   MINI_OPT_FUNCTION_TRACE();
   Errors output_errors{};
+  // The problem may have changed since construction, so make sure the buffer is still large enough.
+  for (const Residual& cost : p_->costs) {
+    if (cost.Dimension() > error_buffer_.rows()) {
+      error_buffer_.resize(cost.Dimension());
+    }
+  }
+  for (const Residual& eq : p_->equality_constraints) {
+    if (eq.Dimension() > error_buffer_.rows()) {
+      error_buffer_.resize(eq.Dimension());
+    }
+  }
   for (const Residual& cost : p_->costs) {
     const auto err_out = error_buffer_.head(cost.Dimension());
     cost.ErrorVector(vars, err_out);
-- 
2.43.0


From 5117b2a601811154e754a47bfead5d0d8716f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/16] fix: lock the trace events while formatting them

---
 source/tracing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..f5d6bd6 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,7 +107,9 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
-  return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
+  auto& self = impl();
+  std::lock_guard guard{self.mutex};
+  return fmt::format(json_object_template, fmt::join(self.events, ",\n    "));
 }
 
 template <typename U, typename T>
-- 
2.43.0


From 7d0722bccbcc6a34c42836cc7bcae1f3de808b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/16] fix: escape event names in the trace JSON

---
 source/tracing.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index f5d6bd6..80b2e58 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -4,7 +4,9 @@
 #ifdef MINI_OPT_TRACING
 
 #include <deque>
+#include <iterator>
 #include <mutex>
+#include <string>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -25,6 +27,23 @@
 
 #include "mini_opt/assertions.hpp"
 
+// Escape characters that may not appear in a JSON string.
+static std::string escape_json(const std::string_view str) {
+  std::string result{};
+  result.reserve(str.size());
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.push_back('\\');
+      result.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      fmt::format_to(std::back_inserter(result), "\\u{:04x}", static_cast<unsigned int>(c));
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
 // Format mini_opt::trace_event to JSON.
 template <>
 struct fmt::formatter<mini_opt::trace_event> {
@@ -35,7 +54,7 @@ struct fmt::formatter<mini_opt::trace_event> {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
         R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
+    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", escape_json(event.name)),
                           fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000));
-- 
2.43.0


From 45c48b24484a301289b27a3a252d7149a28b4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 10/16] fix: accumulate derivatives when a residual uses a
 variable more than once

---
 include/mini_opt/residual.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mini_opt/residual.hpp b/include/mini_opt/residual.hpp
index 91a099a..544e33a 100644
--- a/include/mini_opt/residual.hpp
+++ b/include/mini_opt/residual.hpp
@@ -218,6 +218,10 @@ double Residual::Model<ResidualDim, ParamsDim, F>::UpdateHessian(const Eigen::Ve
       } else {
         H->operator()(col_global, row_global) += JtT;
       }
+      if (row_local != col_local && row_global == col_global) {
+        // The same variable appears twice in the index, so count the other half of the cross term.
+        H->operator()(row_global, col_global) += JtT;
+      }
     }
     // Also update the right-hand side vector `b`.
     b->operator()(row_global) += J.col(row_local).dot(r);
@@ -242,10 +246,14 @@ void Residual::Model<ResidualDim, ParamsDim, F>::UpdateJacobian(
   }
   b_out.noalias() = func_(relevant_params, &J);
 
+  // Clear the columns first, since a variable may appear more than once in the index.
   for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
     const int col_global = index_[col_local];
     F_ASSERT_LT(col_global, J_out.cols(), "Index exceeds the size of the Jacobian");
-    J_out.col(col_global).noalias() = J.col(col_local);
+    J_out.col(col_global).setZero();
+  }
+  for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
+    J_out.col(index_[col_local]).noalias() += J.col(col_local);
   }
 }
 
-- 
2.43.0


From 95f63dbb06ebab63692e6daba487816b1e616066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 11/16] fix: throw when deserializing JSON with missing keys

---
 source/serialization.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..5b6b416 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -99,14 +99,14 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
-        j["qp_outputs"]
+        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-        j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
-        j["step_result"].get<StepSizeSelectionResult>(),
-        j["line_search_steps"].get<std::vector<LineSearchStep>>());
+        j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(), j.at("penalty").get<double>(),
+        j.at("step_result").get<StepSizeSelectionResult>(),
+        j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
   static void to_json(json& j, const NLSIteration& iter) {
@@ -124,8 +124,8 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
-                          j["iterations"].get<std::vector<NLSIteration>>());
+  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+                          j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
-- 
2.43.0


From 89d32c5a07351b6607cd2aab13dafa3eb8b353da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 12/16] fix: read null as NaN when deserializing, so results
 survive a round trip through text

---
 source/serialization.cc | 49 ++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 5b6b416..d6dbf3a 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,6 +3,9 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <limits>
+#include <type_traits>
+
 #include <nlohmann/json.hpp>
 
 using json = nlohmann::json;
@@ -29,6 +32,32 @@ static void from_json(const json& j, std::optional<T>& x) {
   }
 }
 
+// JSON text cannot represent NaN or Inf, nlohmann writes them as null. Read null back as NaN.
+static double get_double(const json& j) {
+  return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
+}
+
+template <typename T>
+static void get_member(const json& j, const char* key, T& value) {
+  if constexpr (std::is_same_v<T, double>) {
+    value = get_double(j.at(key));
+  } else {
+    j.at(key).get_to(value);
+  }
+}
+
+// Version of NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE that accepts null where a double is expected.
+#define MINI_OPT_JSON_FROM(member) \
+  get_member(nlohmann_json_j, #member, nlohmann_json_t.member);
+#define MINI_OPT_DEFINE_JSON_TYPE(Type, ...)                                        \
+  static void to_json(json& nlohmann_json_j, const Type& nlohmann_json_t) {         \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(NLOHMANN_JSON_TO, __VA_ARGS__))        \
+  }                                                                                 \
+  static void from_json(const json& nlohmann_json_j, Type& nlohmann_json_t) {       \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(MINI_OPT_JSON_FROM, __VA_ARGS__))      \
+  }                                                                                 \
+  static_assert(true, "Require a semicolon")
+
 NLOHMANN_JSON_SERIALIZE_ENUM(OptimizerState,
                              {{OptimizerState::ATTEMPTING_RESTORE_LM, "ATTEMPTING_RESTORE_LM"},
                               {OptimizerState::NOMINAL, "NOMINAL"}});
@@ -62,17 +91,17 @@ NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
 
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(Errors, f, equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPEigenvalues, min, max, abs_min);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(DirectionalDerivatives, d_f, d_equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(LineSearchStep, alpha, errors);
+MINI_OPT_DEFINE_JSON_TYPE(Errors, f, equality);
+MINI_OPT_DEFINE_JSON_TYPE(QPEigenvalues, min, max, abs_min);
+MINI_OPT_DEFINE_JSON_TYPE(DirectionalDerivatives, d_f, d_equality);
+MINI_OPT_DEFINE_JSON_TYPE(LineSearchStep, alpha, errors);
 
 // QP structs:
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(AlphaValues, primal, dual);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
+MINI_OPT_DEFINE_JSON_TYPE(AlphaValues, primal, dual);
+MINI_OPT_DEFINE_JSON_TYPE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
+MINI_OPT_DEFINE_JSON_TYPE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPLagrangeMultipliers, min, l_infinity);
+MINI_OPT_DEFINE_JSON_TYPE(QPLagrangeMultipliers, min, l_infinity);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointSolverOutputs, termination_state, iterations,
                                    lagrange_multipliers);
 
@@ -100,11 +129,11 @@ struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
         j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
-        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
-        j.at("directional_derivatives").get<DirectionalDerivatives>(), j.at("penalty").get<double>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(), get_double(j.at("penalty")),
         j.at("step_result").get<StepSizeSelectionResult>(),
         j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
-- 
2.43.0


From 08cc57f459de6e87e62d38d5e4719a5005570935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 13/16] fix: use a rank tolerance above rounding error in
 QPNullSpaceSolver

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 875980c..cab53e8 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -693,7 +693,10 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const int num_params = static_cast<int>(p.A_eq.cols());
 
   // Compute [Q R] factorization of A_eq^T
-  const auto QR = p.A_eq.transpose().colPivHouseholderQr();
+  auto QR = p.A_eq.transpose().colPivHouseholderQr();
+
+  // The default threshold is so small that rounding error can pass for an independent constraint.
+  QR.setThreshold(1.0e-12);
 
   Q_ = QR.matrixQ();
   const auto& R = QR.matrixR();
-- 
2.43.0


From b69eab5def4599b30e3c62a8d376668fcea095c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 14/16] fix: throw when deserializing unknown enumerators or
 partial inner results

---
 source/serialization.cc | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index d6dbf3a..6185b78 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -37,16 +37,29 @@ static double get_double(const json& j) {
   return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
 }
 
+// NLOHMANN_JSON_SERIALIZE_ENUM reads everything it does not know as the first enumerator.
+template <typename T>
+static T get_enum(const json& j) {
+  const T value = j.get<T>();
+  if (json(value) != j) {
+    throw json::other_error::create(501, "value is not the name of an enumerator", &j);
+  }
+  return value;
+}
+
 template <typename T>
 static void get_member(const json& j, const char* key, T& value) {
   if constexpr (std::is_same_v<T, double>) {
     value = get_double(j.at(key));
+  } else if constexpr (std::is_enum_v<T>) {
+    value = get_enum<T>(j.at(key));
   } else {
     j.at(key).get_to(value);
   }
 }
 
-// Version of NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE that accepts null where a double is expected.
+// Version of NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE that accepts null where a double is expected, and
+// only known enumerators.
 #define MINI_OPT_JSON_FROM(member) \
   get_member(nlohmann_json_j, #member, nlohmann_json_t.member);
 #define MINI_OPT_DEFINE_JSON_TYPE(Type, ...)                                        \
@@ -102,8 +115,8 @@ MINI_OPT_DEFINE_JSON_TYPE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine)
 MINI_OPT_DEFINE_JSON_TYPE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
 MINI_OPT_DEFINE_JSON_TYPE(QPLagrangeMultipliers, min, l_infinity);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointSolverOutputs, termination_state, iterations,
-                                   lagrange_multipliers);
+MINI_OPT_DEFINE_JSON_TYPE(QPInteriorPointSolverOutputs, termination_state, iterations,
+                          lagrange_multipliers);
 
 static void to_json(
     json& j, const std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
@@ -112,10 +125,10 @@ static void to_json(
 
 static void from_json(
     const json& j, std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
-  if (j.contains("termination_state") && j.contains("iterations")) {
+  if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
-    var = j.get<QPNullSpaceTerminationState>();
+    var = get_enum<QPNullSpaceTerminationState>(j);
   }
 }
 }  // namespace mini_opt
@@ -128,13 +141,13 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("iteration").get<int>(), get_enum<OptimizerState>(j.at("optimizer_state")),
         get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
         j.at("directional_derivatives").get<DirectionalDerivatives>(), get_double(j.at("penalty")),
-        j.at("step_result").get<StepSizeSelectionResult>(),
+        get_enum<StepSizeSelectionResult>(j.at("step_result")),
         j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
@@ -153,7 +166,7 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+  return NLSSolverOutputs(get_enum<NLSTerminationState>(j.at("termination_state")),
                           j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
-- 
2.43.0


From 0afa43525362866f23eb16e5ad461285d76ec01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 15/16] fix: throw when deserializing an iteration counter that
 is not an int

---
 source/serialization.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 6185b78..adcd723 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,7 +3,9 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <cstdint>
 #include <limits>
+#include <string>
 #include <type_traits>
 
 #include <nlohmann/json.hpp>
@@ -37,6 +39,21 @@ static double get_double(const json& j) {
   return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
 }
 
+// Conversion of numbers that are not integers in the range of `int` is either lossy or undefined.
+static int get_int(const json& j) {
+  if (!j.is_number_integer()) {
+    throw json::type_error::create(302, std::string("type must be integer, but is ") + j.type_name(),
+                                   &j);
+  }
+  using limits = std::numeric_limits<int>;
+  if (j.is_number_unsigned()
+          ? j.get<std::uint64_t>() > static_cast<std::uint64_t>(limits::max())
+          : (j.get<std::int64_t>() < limits::min() || j.get<std::int64_t>() > limits::max())) {
+    throw json::out_of_range::create(406, "integer is out of range", &j);
+  }
+  return j.get<int>();
+}
+
 // NLOHMANN_JSON_SERIALIZE_ENUM reads everything it does not know as the first enumerator.
 template <typename T>
 static T get_enum(const json& j) {
@@ -141,7 +158,7 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j.at("iteration").get<int>(), get_enum<OptimizerState>(j.at("optimizer_state")),
+        get_int(j.at("iteration")), get_enum<OptimizerState>(j.at("optimizer_state")),
         get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-- 
2.43.0


From ef539ac4c33f13ab0aedf6e71e790138a3e5edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 16/16] fix: trace scopes that end normally while an exception
 is in flight

---
 include/mini_opt/tracing.hpp | 7 ++++++-
 source/tracing.cc            | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..28e4607 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -68,7 +69,9 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name),
+        uncaught_exceptions_(std::uncaught_exceptions()),
+        start_(std::chrono::high_resolution_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -79,6 +82,8 @@ class scoped_trace {
 
  private:
   std::string_view name_;
+  // Scopes in a destructor may start and end normally while another exception is in flight.
+  int uncaught_exceptions_;
   std::chrono::high_resolution_clock::time_point start_;
 };
 
diff --git a/source/tracing.cc b/source/tracing.cc
index 80b2e58..68809cc 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -138,7 +138,7 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::high_resolution_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > uncaught_exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0

