From 1c5ec73f7a638d8e3007be7cc558a11fc2d087b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 01/38] fix: CONEX_SetDefaultOptions sets every option

---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..0d679fd 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -251,9 +251,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From e2738bbfead706f1561430991e09bf6828a5fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 02/38] fix: handle consistency check counts two workspaces per
 constraint

---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0d679fd..1a7e90b 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,7 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    if (2 * prog->NumberOfConstraints() + 2 !=                             \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 1fc010845eab635904dd493c6fec82fa406b5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 03/38] fix: CONEX_GetIterationStats before the first solve

---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 1a7e90b..63b50d1 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -267,7 +267,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 8c37abefb5b3a32aa2a4e4d912ef6a93395a3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 04/38] fix: reject negative variable indices

---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 0de0060b77039fd6a3dd1849b4fd5d7f582224ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/38] fix: Solve reports rejected and aborted problems as not
 solved

---
 conex/cone_program.cc | 26 +++++++++++++++++---------
 conex/cone_program.h  |  2 +-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..bda486b 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,18 +234,23 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  prog.status_.solved = 0;
+  prog.status_.num_iterations = 0;
+  prog.status_.primal_infeasible = 0;
+  prog.status_.dual_infeasible = 0;
+
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs."
+              << std::endl;
+    return prog.status_.solved;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
-  prog.status_.solved = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
 #if CONEX_VERBOSE
@@ -384,8 +389,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed."
+                    << std::endl;
+          return prog.status_.solved;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..d797f98 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
-- 
2.43.0


From 9d140a12b359c02654ab0205bd0fc00b9fcb3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 06/38] fix: no read of iteration statistics before the first
 iteration

---
 conex/cone_program.cc | 3 +++
 conex/cone_program.h  | 2 +-
 conex/workspace.h     | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index bda486b..306a064 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -278,7 +278,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   Initialize(prog, config);
   std::cout << "\n";
 
+  prog.stats->num_iter = 0;
+
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
+  ydata.setZero();
   Eigen::Map<DenseMatrix> yout(primal_variable, m, 1);
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index d797f98..30254fe 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible) {
+        if (!status_.primal_infeasible && stats && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
-- 
2.43.0


From 94511994017696164b6b926e69f5bd26b4281a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 07/38] fix: the core propagates rejected constraints and costs

---
 conex/cone_program.cc      | 13 ++++++++-----
 conex/constraint_manager.h |  6 ++----
 conex/quadratic_cost.cc    |  4 ++--
 conex/quadratic_cost.h     |  2 +-
 4 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 306a064..0a505ea 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -227,7 +227,7 @@ bool Program::AddLinearCost(const VectorXd& b) {
   CONEX_DEMAND(GetNumberOfVariables() == b.rows(),
                "Cost vector dimension does not equal number of variables");
   linear_cost_ += b;
-  return true;
+  return CONEX_SUCCESS;
 }
 
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
@@ -558,15 +558,18 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  if (prog.AddLinearCost(-b) != CONEX_SUCCESS) {
+    return false;
+  }
   return Solve(prog, config, primal_variable);
 }
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
-  conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = conex::AddQuadraticCost(this, Q, vars);
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 81dcfab..1e25fbd 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -53,8 +53,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddConstraint(x, clique);
-    return CONEX_SUCCESS;
+    return AddConstraint(x, clique);
   }
 
   template <typename T>
@@ -90,8 +89,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
-    return CONEX_SUCCESS;
+    return AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
   }
 
   // Use a list so that we do not trigger reallocations.
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..6149d85 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -70,9 +70,9 @@ class QuadraticFunction {
 };
 }  // namespace
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z) {
-  conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
+  return conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cost.h b/conex/quadratic_cost.h
index 852aeda..a0a3016 100644
--- a/conex/quadratic_cost.h
+++ b/conex/quadratic_cost.h
@@ -3,7 +3,7 @@
 
 namespace conex {
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z);
 
 }  // namespace conex
-- 
2.43.0


From 3ce48cf1dabf6b609cb3e4de6ddc703ae364d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 08/38] fix: the C API reports constraints the program rejects

---
 interfaces/conex.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 63b50d1..a424aa6 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -155,7 +155,9 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   DenseLMIConstraint T3{n, Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3);
+  if (program.AddConstraint(T3) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -183,7 +185,9 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   conex::DenseLMIConstraint T3{Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3, variables);
+  if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -224,7 +228,9 @@ int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
   auto& program = *reinterpret_cast<Program*>(prog);
 
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3);
+  if (program.AddConstraint(T3) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -298,21 +304,26 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
+  bool status = CONEX_FAILURE;
   switch (hyper_complex_dim) {
     case 1:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Real>(order));
+      status = prg->AddConstraint(HermitianPsdConstraint<conex::Real>(order));
       break;
     case 2:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Complex>(order));
+      status =
+          prg->AddConstraint(HermitianPsdConstraint<conex::Complex>(order));
       break;
     case 4:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Quaternions>(order));
+      status =
+          prg->AddConstraint(HermitianPsdConstraint<conex::Quaternions>(order));
       break;
     case 8:
       CONEX_DEMAND(order <= 3,
                    "Order of octonion algebra cannot be greater than 3.");
-      prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
+      status =
+          prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
   }
+  CONEX_DEMAND(status == CONEX_SUCCESS, "Failed to add constraint.");
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
@@ -326,6 +337,7 @@ CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
   Eigen::MatrixXd A = Eigen::MatrixXd::Zero(num_rows, n);
   Eigen::MatrixXd b = Eigen::MatrixXd::Zero(num_rows, 1);
   bool status = prg->AddConstraint(LinearConstraint{A, b});
+  CONEX_DEMAND(status == CONEX_SUCCESS, "Failed to add constraint.");
   *constraint_id = prg->NumberOfConstraints() - 1;
   return status;
 }
@@ -338,6 +350,7 @@ CONEX_STATUS CONEX_NewQuadraticCost(void* p, int* constraint_id) {
   int n = prg->GetNumberOfVariables();
   Eigen::MatrixXd Q = Eigen::MatrixXd::Zero(n, n);
   bool status = prg->AddQuadraticCost(Q);
+  CONEX_DEMAND(status == CONEX_SUCCESS, "Failed to add quadratic cost.");
   *constraint_id = prg->NumberOfConstraints() - 1;
   return status;
 }
@@ -393,7 +406,8 @@ CONEX_STATUS CONEX_NewLorentzConeConstraint(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
-  prg->AddConstraint(conex::SOCConstraint(order));
+  bool status = prg->AddConstraint(conex::SOCConstraint(order));
+  CONEX_DEMAND(status == CONEX_SUCCESS, "Failed to add constraint.");
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From 2f13f4fc70520d4773e09d24a229541120c8e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 09/38] fix: coefficient updates reject every index outside the
 constraint

---
 conex/hermitian_psd.cc     | 3 +++
 conex/linear_constraint.cc | 2 ++
 conex/quadratic_cost.cc    | 1 +
 3 files changed, 6 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..e256bb7 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -248,6 +248,8 @@ template void ConstructSchurComplementSystem(
 template <typename H>
 bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
                           int r, int c, int dim) {
+  CONEX_DEMAND(var >= 0 && r >= 0 && c >= 0 && dim >= 0,
+               "Indices cannot be negative.");
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
@@ -285,6 +287,7 @@ template bool UpdateLinearOperator(HermitianPsdConstraint<Octonions>* o,
 template <typename H>
 bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
                       int dim) {
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..ac11e18 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -209,6 +209,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(dim == 0, "Complex linear constraints not supported.");
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
 
   o->constraint_matrix_(r, var) = val;
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 6149d85..f435e2e 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -33,6 +33,7 @@ class QuadraticFunction {
   friend bool UpdateAffineTerm(QuadraticFunction* o, double val, int r, int c,
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
-- 
2.43.0


From 23c1cd8b95155c69d62c82cd3614a4b527b7f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 10/38] fix: second-order cones built from matrices record
 their order

---
 conex/soc_constraint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
-- 
2.43.0


From c20ac4b729c1287bc81030642344d36f1ff817db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 11/38] fix: every entry point of the C API rejects null
 pointers

---
 interfaces/conex.cc | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index a424aa6..88aa115 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -93,6 +93,10 @@ SolverConfiguration APIConvertSolverConfiguration(
 int CONEX_Maximize(void* prog_ptr, const double* b, int br,
                    const CONEX_SolverConfiguration* config_input, double* y,
                    int yr) {
+  if (!prog_ptr || !b || !config_input || !y) {
+    std::cerr << "Received null pointer.";
+    return 0;
+  }
   using InputMatrix = Eigen::Map<const DenseMatrix>;
   InputMatrix bmap(b, br, 1);
   DenseMatrix blinear = bmap;
@@ -106,12 +110,20 @@ int CONEX_Maximize(void* prog_ptr, const double* b, int br,
 
 int CONEX_Solve(void* prog_ptr, const CONEX_SolverConfiguration* config_input,
                 double* y, int yr) {
+  if (!prog_ptr || !config_input || !y) {
+    std::cerr << "Received null pointer.";
+    return 0;
+  }
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
   return Solve(prog, config, y);
 }
 
 void CONEX_GetDualVariable(void* prog_ptr, int i, double* x, int xr, int xc) {
+  if (!prog_ptr || !x) {
+    std::cerr << "Received null pointer.";
+    return;
+  }
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
   assert(prog.GetDualVariableSize(i) == xr * xc);
 
@@ -122,6 +134,10 @@ void CONEX_GetDualVariable(void* prog_ptr, int i, double* x, int xr, int xc) {
 }
 
 int CONEX_GetDualVariableSize(void* prog_ptr, int i) {
+  if (!prog_ptr) {
+    std::cerr << "Received null pointer.";
+    return 0;
+  }
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
   return prog.GetDualVariableSize(i);
 }
@@ -136,6 +152,10 @@ void CONEX_DeleteConeProgram(void* prog) {
 
 int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
                                 int m, const double* c, int cr, int cc) {
+  if (!prog || !A || !c) {
+    std::cerr << "Received null pointer.";
+    return -1;
+  }
   assert(Ar == Ac);
   assert(Ar == cr);
   assert(cc == cr);
@@ -164,6 +184,10 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
 int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
                                  int num_vars, const double* c, int cr, int cc,
                                  const long* vars, int vars_rows) {
+  if (!prog || !A || !c || !vars) {
+    std::cerr << "Received null pointer.";
+    return -1;
+  }
   assert(Ar == Ac);
   assert(Ar == cr);
   assert(cc == cr);
@@ -194,6 +218,10 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
 int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
                                 const double* lb, int num_lb, const double* ub,
                                 int num_ub) {
+  if (!prog || !A || !lb || !ub) {
+    std::cerr << "Received null pointer.";
+    return -1;
+  }
   assert(Ar == num_lb);
   assert(Ar == num_ub);
   Eigen::MatrixXd Ain = Eigen::Map<const Eigen::MatrixXd>(A, Ar, Ac);
@@ -219,6 +247,10 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
 }
 int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
                                    const double* c, int cr) {
+  if (!prog || !A || !c) {
+    std::cerr << "Received null pointer.";
+    return -1;
+  }
   assert(Ar == cr);
 
   int n = Ar;
@@ -356,6 +388,7 @@ CONEX_STATUS CONEX_NewQuadraticCost(void* p, int* constraint_id) {
 }
 
 CONEX_STATUS CONEX_AddQuadraticCost(void* p, const double* A, int Ar, int Ac) {
+  CONEX_DEMAND(A, "Received input null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
   int n = prg->GetNumberOfVariables();
-- 
2.43.0


From df30f6bffcbe20bd3ed4afd73c705ec745d8e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 12/38] fix: the C API checks declared dimensions before using
 caller buffers

---
 interfaces/conex.cc | 51 +++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 88aa115..56feafa 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -97,14 +97,18 @@ int CONEX_Maximize(void* prog_ptr, const double* b, int br,
     std::cerr << "Received null pointer.";
     return 0;
   }
+  Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (br != prog.GetNumberOfVariables() || yr < prog.GetNumberOfVariables()) {
+    std::cerr << "Vector dimension does not equal number of variables.";
+    return 0;
+  }
+
   using InputMatrix = Eigen::Map<const DenseMatrix>;
   InputMatrix bmap(b, br, 1);
   DenseMatrix blinear = bmap;
 
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
 
-  Program& prog = *reinterpret_cast<Program*>(prog_ptr);
-
   return Solve(blinear, prog, config, y);
 }
 
@@ -116,6 +120,10 @@ int CONEX_Solve(void* prog_ptr, const CONEX_SolverConfiguration* config_input,
   }
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (yr < prog.GetNumberOfVariables()) {
+    std::cerr << "Vector dimension does not equal number of variables.";
+    return 0;
+  }
   return Solve(prog, config, y);
 }
 
@@ -125,7 +133,11 @@ void CONEX_GetDualVariable(void* prog_ptr, int i, double* x, int xr, int xc) {
     return;
   }
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
-  assert(prog.GetDualVariableSize(i) == xr * xc);
+  if (i < 0 || i >= prog.NumberOfConstraints() || xr < 0 || xc < 0 ||
+      prog.GetDualVariableSize(i) != xr * xc) {
+    std::cerr << "Invalid constraint or dual variable size.";
+    return;
+  }
 
   using InputMatrix = Eigen::Map<DenseMatrix>;
 
@@ -139,6 +151,10 @@ int CONEX_GetDualVariableSize(void* prog_ptr, int i) {
     return 0;
   }
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (i < 0 || i >= prog.NumberOfConstraints()) {
+    std::cerr << "Invalid constraint.";
+    return 0;
+  }
   return prog.GetDualVariableSize(i);
 }
 
@@ -156,9 +172,10 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
     std::cerr << "Received null pointer.";
     return -1;
   }
-  assert(Ar == Ac);
-  assert(Ar == cr);
-  assert(cc == cr);
+  if (Ar < 0 || m < 0 || Ar != Ac || Ar != cr || cc != cr) {
+    std::cerr << "Invalid constraint dimensions.";
+    return -1;
+  }
 
   using InputMatrix = Eigen::Map<const DenseMatrix>;
   auto offset = A;
@@ -188,10 +205,11 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
     std::cerr << "Received null pointer.";
     return -1;
   }
-  assert(Ar == Ac);
-  assert(Ar == cr);
-  assert(cc == cr);
-  assert(vars_rows == num_vars);
+  if (Ar < 0 || num_vars < 0 || Ar != Ac || Ar != cr || cc != cr ||
+      vars_rows != num_vars) {
+    std::cerr << "Invalid constraint dimensions.";
+    return -1;
+  }
 
   // TODO(FrankPermenter): Remove these copies.
   using InputMatrix = Eigen::Map<const DenseMatrix>;
@@ -222,8 +240,10 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
     std::cerr << "Received null pointer.";
     return -1;
   }
-  assert(Ar == num_lb);
-  assert(Ar == num_ub);
+  if (Ar < 0 || Ac < 0 || Ar != num_lb || Ar != num_ub) {
+    std::cerr << "Invalid constraint dimensions.";
+    return -1;
+  }
   Eigen::MatrixXd Ain = Eigen::Map<const Eigen::MatrixXd>(A, Ar, Ac);
   Eigen::MatrixXd lbin = Eigen::Map<const Eigen::MatrixXd>(lb, Ar, 1);
   Eigen::MatrixXd ubin = Eigen::Map<const Eigen::MatrixXd>(ub, Ar, 1);
@@ -251,7 +271,10 @@ int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
     std::cerr << "Received null pointer.";
     return -1;
   }
-  assert(Ar == cr);
+  if (Ar < 0 || Ac < 0 || Ar != cr) {
+    std::cerr << "Invalid constraint dimensions.";
+    return -1;
+  }
 
   int n = Ar;
   int m = Ac;
@@ -362,6 +385,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 0, "Invalid number of rows.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
@@ -392,6 +416,7 @@ CONEX_STATUS CONEX_AddQuadraticCost(void* p, const double* A, int Ar, int Ac) {
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
   int n = prg->GetNumberOfVariables();
+  CONEX_DEMAND(Ar == n && Ac == n, "Invalid cost matrix dimensions.");
   Eigen::MatrixXd Q;
   std::vector<int> vars;
 
-- 
2.43.0


From 08e9e93fae38796df0fa7c909798093649477e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 13/38] fix: quadratic cost matrices only need to be square

---
 interfaces/conex.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 56feafa..6a0ddda 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -415,8 +415,7 @@ CONEX_STATUS CONEX_AddQuadraticCost(void* p, const double* A, int Ar, int Ac) {
   CONEX_DEMAND(A, "Received input null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
-  int n = prg->GetNumberOfVariables();
-  CONEX_DEMAND(Ar == n && Ac == n, "Invalid cost matrix dimensions.");
+  CONEX_DEMAND(Ar >= 0 && Ar == Ac, "Invalid cost matrix dimensions.");
   Eigen::MatrixXd Q;
   std::vector<int> vars;
 
-- 
2.43.0


From d018b653d240e8cbde24128ed32b3937ff95ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 14/38] fix: coefficients that are never set are zero

---
 conex/hermitian_psd.h  | 3 ++-
 conex/soc_constraint.h | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..18b1e1a 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,7 +42,8 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), constraint_affine_(T::Zero(n, n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index 3a9a872..8295903 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -17,7 +17,11 @@ class SOCConstraint {
   }
 
   // Lorentz cone a subset of R^(n+1).
-  SOCConstraint(int n) : workspace_(n), n_(n) {}
+  SOCConstraint(int n)
+      : workspace_(n),
+        constraint_matrix_(DenseMatrix::Zero(n + 1, 0)),
+        constraint_affine_(DenseMatrix::Zero(n + 1, 1)),
+        n_(n) {}
 
   WorkspaceSOC* workspace() { return &workspace_; }
 
-- 
2.43.0


From aa89c802eb50de3060c14b329f17a0c46dd1f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 15/38] fix: quadratic cones scale only their own Schur
 complement contribution

Also handles a cone with fewer variables than its clique.
---
 conex/quadratic_cone_constraint.cc | 58 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..8ebfce6 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -83,15 +83,15 @@ template <typename T>
 void SchurComplement(const Eigen::VectorXd& A0, const Eigen::MatrixXd& A_gram,
                      const double W0, double det_w,
                      const Eigen::MatrixXd& A_dot_w, bool initialize, T* G) {
+  // Account for Jordan inner-product  <x, y> := 2 x^T y.
   if (initialize) {
     G->noalias() = A0 * A0.transpose();
     G->noalias() -= A_gram;
-    G->array() *= -det_w;
+    G->array() *= -2 * det_w;
   } else {
-    G->noalias() += det_w * (A_gram - A0 * A0.transpose());
+    G->noalias() += 2 * det_w * (A_gram - A0 * A0.transpose());
   }
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
+  G->noalias() += 4 * (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
 }
 
 }  // namespace
@@ -128,9 +128,10 @@ void QuadraticConstraintBase::ComputeNegativeSlack(double inv_sqrt_mu,
                                                    const Ref& y,
                                                    double* minus_s_0,
                                                    Ref* minus_s_1) {
-  *minus_s_0 = A0_.dot(y.col(0));
+  const auto x = y.topRows(number_of_variables());
+  *minus_s_0 = A0_.dot(x.col(0));
   *minus_s_0 -= C0_ * inv_sqrt_mu;
-  minus_s_1->noalias() = A1_ * y;
+  minus_s_1->noalias() = A1_ * x;
   minus_s_1->noalias() -= C1_ * inv_sqrt_mu;
 }
 
@@ -252,19 +253,13 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   double det_w = (*o->workspace_.W0) * (*o->workspace_.W0) -
                  SquaredNorm(o->Q_, o->workspace_.W1, &Q_W1);
 
-  if (initialize) {
-    SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
-                    &sys->G);
-    sys->AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
-  } else {
-    SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
-                    &sys->G);
-    sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc += det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+  int m = o->number_of_variables();
+  if (initialize && sys->G.rows() != m) {
+    sys->setZero();
   }
+  auto G = sys->G.topLeftCorner(m, m);
+  auto AW = sys->AW.topRows(m);
+  auto AQc = sys->AQc.topRows(m);
 
   double scale;
   if (o->Q_.size() > 0) {
@@ -272,21 +267,24 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   } else {
     scale = o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
   }
-  sys->AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
-  sys->inner_product_of_c_and_Qc +=
-      2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
+  double c_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0) +
+                2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
+
+  // Account for Jordan inner-product  <x, y> := 2 x^T y.
+  SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, initialize,
+                  &G);
   if (initialize) {
-    sys->inner_product_of_w_and_c = scale;
+    AW.noalias() = 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    AQc.noalias() = 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc = 2 * c_Qc;
+    sys->inner_product_of_w_and_c = 2 * scale;
   } else {
-    sys->inner_product_of_w_and_c += scale;
+    AW.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    AQc.noalias() += 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc += 2 * c_Qc;
+    sys->inner_product_of_w_and_c += 2 * scale;
   }
-
-  // Account for Jordan inner-product  <x, y> := 2 x^T y.
-  sys->AQc *= 2;
-  sys->AW *= 2;
-  sys->inner_product_of_c_and_Qc *= 2;
-  sys->inner_product_of_w_and_c *= 2;
-  sys->G *= 2;
+  AQc.noalias() += 4 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
 }
 
 void SetIdentity(QuadraticConstraintBase* o) {
-- 
2.43.0


From 9ebec9c1cfbc36b3369d7b66711c4f947a7f4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 16/38] fix: constraints with fewer variables than their clique
 clear the remaining entries

---
 conex/dense_lmi_constraint.cc |  3 +++
 conex/hermitian_psd.cc        |  3 +++
 conex/soc_constraint.cc       | 22 ++++++++++++++--------
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/conex/dense_lmi_constraint.cc b/conex/dense_lmi_constraint.cc
index 3699fbb..8a5ba41 100644
--- a/conex/dense_lmi_constraint.cc
+++ b/conex/dense_lmi_constraint.cc
@@ -96,6 +96,9 @@ void ConstructSchurComplementSystem(DenseLMIConstraint* o, bool initialize,
   int m = o->num_dual_constraints_;
 
   if (initialize) {
+    if (sys->G.rows() != m) {
+      sys->setZero();
+    }
     SCHUR_COMPLEMENT_FUNCTION(=);
   } else {
     SCHUR_COMPLEMENT_FUNCTION(+=);
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index e256bb7..c4e17c0 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -178,6 +178,9 @@ void ConstructSchurComplementSystem(HermitianPsdConstraint<T>* o,
   typename T::Matrix AW;
   typename T::Matrix WAW;
   if (initialize) {
+    if (G->rows() != m) {
+      sys->setZero();
+    }
     for (int i = 0; i < m; i++) {
       if constexpr (std::is_same<T, Octonions>::value) {
         WAW = T::QuadraticRepresentation(W, o->constraint_matrices_.at(i));
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..8bea18e 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -192,7 +192,7 @@ double NormInf(double x0, const DenseMatrix& x) {
 
 void SOCConstraint::ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y,
                                          Ref* minus_s) {
-  minus_s->noalias() = (constraint_matrix_)*y;
+  minus_s->noalias() = (constraint_matrix_)*y.topRows(number_of_variables());
   minus_s->noalias() -= (constraint_affine_)*inv_sqrt_mu;
 }
 
@@ -277,7 +277,13 @@ void ConstructSchurComplementSystem(SOCConstraint* o, bool initialize,
   W(0, 0) = *o->workspace_.W0;
   W.bottomRows(n) = o->workspace_.W1;
 
-  auto G = &sys->G;
+  int m = o->number_of_variables();
+  if (initialize && sys->G.rows() != m) {
+    sys->setZero();
+  }
+  auto G = sys->G.topLeftCorner(m, m);
+  auto AW = sys->AW.topRows(m);
+  auto AQc = sys->AQc.topRows(m);
 
   Eigen::MatrixXd WA = o->constraint_matrix_;
   Eigen::MatrixXd WsqrtC =
@@ -288,15 +294,15 @@ void ConstructSchurComplementSystem(SOCConstraint* o, bool initialize,
   }
 
   if (initialize) {
-    (*G).noalias() = 2 * WA.transpose() * WA;
-    sys->AW.noalias() = 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() = 2 * WA.transpose() * WsqrtC;
+    G.noalias() = 2 * WA.transpose() * WA;
+    AW.noalias() = 2 * o->constraint_matrix_.transpose() * W;
+    AQc.noalias() = 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c = 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc = 2 * WsqrtC.squaredNorm();
   } else {
-    (*G).noalias() += 2 * WA.transpose() * WA;
-    sys->AW.noalias() += 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() += 2 * WA.transpose() * WsqrtC;
+    G.noalias() += 2 * WA.transpose() * WA;
+    AW.noalias() += 2 * o->constraint_matrix_.transpose() * W;
+    AQc.noalias() += 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c += 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc += 2 * WsqrtC.squaredNorm();
   }
-- 
2.43.0


From c6b1d47dd2e9378029954a4475b4e72c3c3c7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 17/38] fix: reject constraints with more variables than their
 clique

---
 conex/cone_program.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 0a505ea..ebbf085 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -76,6 +76,14 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
+  for (auto& c : prog.kkt_system_manager_.eqs) {
+    if (c.constraint.number_of_variables() >
+        c.supernodal_assembler.NumberOfVariables()) {
+      std::cerr << "Constraint has more variables than its clique."
+                << std::endl;
+      return false;
+    }
+  }
   if (!prog.is_initialized ||
       config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
@@ -275,7 +283,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     return prog.status_.solved;
   }
 
-  Initialize(prog, config);
+  if (!Initialize(prog, config)) {
+    return prog.status_.solved;
+  }
   std::cout << "\n";
 
   prog.stats->num_iter = 0;
@@ -545,7 +555,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
 
 DenseMatrix GetFeasibleObjective(Program* prg) {
   auto& prog = *prg;
-  Initialize(prog, SolverConfiguration());
+  if (!Initialize(prog, SolverConfiguration())) {
+    return DenseMatrix();
+  }
 
   Eigen::VectorXd AW(prog.kkt_system_manager_.SizeOfKKTSystem());
   Eigen::VectorXd AQc(prog.kkt_system_manager_.SizeOfKKTSystem());
-- 
2.43.0


From ceec1477bf097e67d660adedb193b7f9b9c980af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 18/38] fix: a first solve in warm start mode starts from the
 identity

---
 conex/cone_program.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index ebbf085..7051685 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -94,11 +94,9 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
-      prog.stats->b_scaling() = 1;
-      prog.stats->c_scaling() = 1;
-      SetIdentity(&prog.constraints_);
-    }
+    prog.stats->b_scaling() = 1;
+    prog.stats->c_scaling() = 1;
+    SetIdentity(&prog.constraints_);
 
     START_TIMER(Sparsity Analysis);
     solver = std::make_unique<SupernodalKKTSolver>(
-- 
2.43.0


From eafb517393f987113474b2056daa7fd0d1ab2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 19/38] fix: changes of the structure discard the workspaces of
 earlier solves

---
 conex/cone_program.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 30254fe..95c3d52 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -109,6 +109,7 @@ class Program {
   }
 
   void SetNumberOfVariables(int m) {
+    is_initialized = false;
     kkt_system_manager_.SetNumberOfVariables(m);
     linear_cost_ = Eigen::VectorXd::Zero(m);
   }
@@ -190,6 +191,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
+    is_initialized = false;
     if constexpr (!std::is_same<T, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
@@ -204,6 +206,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
+    is_initialized = false;
     if constexpr (!std::is_same<T, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
-- 
2.43.0


From 664cc98c04f9d2ce98360753935e4e1a64cc4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 20/38] fix: warm starts with more iterations stay inside the
 iteration statistics

---
 conex/cone_program.cc |  1 +
 conex/workspace.h     | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7051685..7531c3a 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -286,6 +286,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
   std::cout << "\n";
 
+  prog.stats->Reserve(config.max_iterations);
   prog.stats->num_iter = 0;
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
diff --git a/conex/workspace.h b/conex/workspace.h
index 4380c2d..901c9bb 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -94,6 +94,16 @@ struct WorkspaceStats {
 
   bool IsInitialized() { return initialized; }
 
+  // Makes room for the statistics of max_iter iterations.
+  void Reserve(int max_iter) {
+    if (max_iter > max_iter_) {
+      storage_.resize(2 * static_cast<size_t>(max_iter));
+      sqrt_inv_mu = storage_.data();
+      norm_inf_d = storage_.data() + max_iter;
+      max_iter_ = max_iter;
+    }
+  }
+
   double* sqrt_inv_mu;
   double* norm_inf_d;
   double* c_scaling_;
@@ -114,6 +124,7 @@ struct WorkspaceStats {
   int num_iter = 0;
   int max_iter_;
   bool initialized = false;
+  std::vector<double> storage_;
 };
 
 }  // namespace conex
-- 
2.43.0


From 01448d853af431031c33cfefdffe48fcf38f9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 21/38] fix: an aborted warm start leaves no unwritten
 iteration statistics

---
 conex/cone_program.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7531c3a..5b96415 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -487,8 +487,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       REPORT(kkt_error);
     }
 
-    prog.stats->num_iter = i + 1;
-    prog.stats->sqrt_inv_mu[i] = newton_step_parameters.inv_sqrt_mu;
+    prog.stats->sqrt_inv_mu[prog.stats->num_iter] =
+        newton_step_parameters.inv_sqrt_mu;
+    prog.stats->num_iter++;
 #if CONEX_VERBOSE
     std::cout << std::endl;
 #endif
-- 
2.43.0


From 3f8aec9683dc91fa82eefc6217fbf19e1180e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 22/38] fix: warm starts keep the initial point of a workspace
 provided by the caller

---
 conex/cone_program.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 5b96415..e71b2a6 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -94,9 +94,13 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    prog.stats->b_scaling() = 1;
-    prog.stats->c_scaling() = 1;
-    SetIdentity(&prog.constraints_);
+    // Only a workspace provided by the caller can hold an initial point.
+    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
+        prog.workspace_data_ == &prog.memory_) {
+      prog.stats->b_scaling() = 1;
+      prog.stats->c_scaling() = 1;
+      SetIdentity(&prog.constraints_);
+    }
 
     START_TIMER(Sparsity Analysis);
     solver = std::make_unique<SupernodalKKTSolver>(
-- 
2.43.0


From 32d6b90cf5ba40baf34f7a0239e219e17dfeae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 23/38] fix: equality constraints passed as lvalues get their
 multipliers

---
 conex/cone_program.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 95c3d52..d3e2137 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -192,7 +192,7 @@ class Program {
   template <typename T>
   bool AddConstraint(T&& d) {
     is_initialized = false;
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -200,14 +200,14 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(d));
     }
   }
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
     is_initialized = false;
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -216,7 +216,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(d), variables);
     }
   }
 
-- 
2.43.0


From 5e72d59aea17606cc26f5687af6cdc58ab08411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 24/38] fix: handles stay consistent when constraints are added
 after a solve

---
 conex/cone_program.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index d3e2137..532486e 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -109,7 +109,7 @@ class Program {
   }
 
   void SetNumberOfVariables(int m) {
-    is_initialized = false;
+    DiscardWorkspaces();
     kkt_system_manager_.SetNumberOfVariables(m);
     linear_cost_ = Eigen::VectorXd::Zero(m);
   }
@@ -172,6 +172,11 @@ class Program {
     CONEX_DEMAND(false, "Invalid Constraint");
   }
 
+  void DiscardWorkspaces() {
+    workspaces.clear();
+    is_initialized = false;
+  }
+
   void InitializeWorkspace() {
     workspaces.clear();
     for (auto& c : kkt_system_manager_.eqs) {
@@ -191,7 +196,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    is_initialized = false;
+    DiscardWorkspaces();
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
@@ -206,7 +211,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    is_initialized = false;
+    DiscardWorkspaces();
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
-- 
2.43.0


From dc9efbda3f48ae04dcea5c164748de0afe445480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 25/38] fix: reject equality constraints and quadratic costs
 larger than their clique

---
 conex/equality_constraint.h | 2 +-
 conex/quadratic_cost.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/equality_constraint.h b/conex/equality_constraint.h
index 8190a69..81a4eee 100644
--- a/conex/equality_constraint.h
+++ b/conex/equality_constraint.h
@@ -43,7 +43,7 @@ class EqualityConstraints {
                                              bool initialize,
                                              SchurComplementSystem* sys_);
 
-  int number_of_variables() { return 0; }
+  int number_of_variables() { return A_.cols() + A_.rows(); }
   WorkspaceEqualityConstraints workspace_;
   WorkspaceEqualityConstraints* workspace() { return &workspace_; }
   friend bool PerformLineSearch(EqualityConstraints*,
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index f435e2e..f001d3f 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -65,7 +65,7 @@ class QuadraticFunction {
     return failure;
   }
 
-  int number_of_variables() { return 0; }
+  int number_of_variables() { return A_.rows(); }
   WorkspaceQuadraticFunction workspace_;
   WorkspaceQuadraticFunction* workspace() { return &workspace_; }
 };
-- 
2.43.0


From 46fc867c477d9c9dded19584115c9995b067c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 26/38] fix: reject sparse LMI variable indices that do not fit
 an int

---
 interfaces/conex.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6a0ddda..f4cc19d 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -221,6 +221,10 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
     Avect.push_back(Amap);
     offset += Ar * Ac;
     variables.at(i) = *(vars + i);
+    if (variables.at(i) != *(vars + i)) {
+      std::cerr << "Invalid variable index.";
+      return -1;
+    }
   }
   InputMatrix Cmap(c, cr, cc);
 
-- 
2.43.0


From 2425667d3ea0eee10a05a3c786dbbea91005d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 27/38] fix: extreme slack eigenvalues start from neutral
 values

The running minimum and maximum over the constraints started at +-30000, so
eigenvalues beyond that were reported as 30000.
---
 conex/cone_program.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index e71b2a6..725f0f8 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -33,8 +33,8 @@ void GetWeightedSlackEigenvalues(ConstraintManager<Container>* constraints,
                                  WeightedSlackEigenvalues* p) {
   p->frobenius_norm_squared = 0;
   p->trace = 0;
-  p->lambda_max = -30000;
-  p->lambda_min = 30000;
+  p->lambda_max = -std::numeric_limits<double>::max();
+  p->lambda_min = std::numeric_limits<double>::max();
   int i = 0;
   for (auto& ci : constraints->eqs) {
     auto ysegment = Vars(y, constraints->cliques.at(i));
-- 
2.43.0


From 25ba67db300b1a5286d984f9aea6cfd8bf0a9176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 28/38] fix: dual variables are not prepared from a failed
 factorization

---
 conex/cone_program.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 725f0f8..49ab8d6 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -526,18 +526,22 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     DenseMatrix y2;
     solver->Assemble();
     AssembleSchurComplementResiduals(&prog.kkt_system_manager_, &prog.sys);
-    solver->Factor();
-    DenseMatrix bres =
-        newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
-    y2 = solver->Solve(bres);
-
-    newton_step_parameters.affine = true;
-    newton_step_parameters.e_weight = 0;
-    newton_step_parameters.c_weight = 0;
-    Ref y2map(y2.data(), y2.rows(), y2.cols());
-    StepInfo info;
-    PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
-                &info);
+    if (solver->Factor()) {
+      DenseMatrix bres =
+          newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
+      y2 = solver->Solve(bres);
+
+      newton_step_parameters.affine = true;
+      newton_step_parameters.e_weight = 0;
+      newton_step_parameters.c_weight = 0;
+      Ref y2map(y2.data(), y2.rows(), y2.cols());
+      StepInfo info;
+      PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
+                  &info);
+    } else {
+      prog.status_.solved = 0;
+      PRINTSTATUS("Factorization failed.");
+    }
   }
 
   if (prog.status_.solved) {
-- 
2.43.0


From 1729a90a7ab496a8237f37b821277a6776833374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 29/38] fix: do not update a supernode in place when it
 contains fill-in

A supernode with as many variables as its clique, of which some are fill-in
(label -1), passed the strictly increasing test, so the clique's matrix was
written over the block of other variables and the KKT matrix was wrong.
---
 conex/supernodal_assembler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..cb1799b 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -78,8 +78,10 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
 
   if (m == data->num_vars) {
     direct_update = true;
-    for (int i = 1; i < data->num_vars; i++) {
-      if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
+    for (int i = 0; i < data->num_vars; i++) {
+      // Negative labels mark fill-in, which the submatrix does not contain.
+      int previous = i > 0 ? *(data->var_data + i - 1) : -1;
+      if (*(data->var_data + i) <= previous) {
         direct_update = false;
         break;
       }
-- 
2.43.0


From 1cf2124021ea7e6567e914539c8611d4db57c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:05 +0000
Subject: [PATCH 30/38] fix: do not clear the inner products of a padded linear
 constraint

When a LinearConstraint has fewer columns than its clique, the assembly set
the inner products of the Schur complement system and then cleared them
together with the matrices.
---
 conex/linear_constraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index ac11e18..b51ae18 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -187,11 +187,11 @@ void ConstructSchurComplementSystem(LinearConstraint* o, bool initialize,
   WC = W.cwiseProduct(o->constraint_affine_);
 
   if (initialize) {
-    sys->inner_product_of_w_and_c = WC.sum();
-    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     if (G->rows() != m) {
       sys->setZero();
     }
+    sys->inner_product_of_w_and_c = WC.sum();
+    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     (*G).topLeftCorner(m, m).noalias() = WA.transpose() * WA;
     sys->AW.topRows(m).noalias() = o->constraint_matrix_.transpose() * W;
     sys->AQc.topRows(m).noalias() = WA.transpose() * WC;
-- 
2.43.0


From 6fb53f86abc7b36db428fc66c2fbda70a15ccf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 31/38] fix: reserve memory for W0 of a second-order cone of
 order one

A cone with n = 0 reported a workspace of size zero although W0 needs one
entry, so W0 shared its memory with the workspace that follows.
---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 71909a1..5302474 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -8,7 +8,7 @@ struct WorkspaceSOC {
   WorkspaceSOC(int n) : n_(n), W(n + 1, 1) {}
 
   static constexpr int size_of(int n) {
-    return get_size_aligned(n) + 4 * get_size_aligned(n);
+    return 4 * get_size_aligned(n) + get_size_aligned(1);
   }
 
   friend int SizeOf(const WorkspaceSOC& o) { return size_of(o.n_); }
-- 
2.43.0


From b35d7d7ef7134036d7a34d762fc990e01635b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 32/38] fix: give the temporaries of a matrix workspace
 distinct memory

The constructors that take memory mapped temp_1 and temp_2 to the same
address and did not record the order of the matrices.
---
 conex/hermitian_psd.h  | 3 ++-
 conex/psd_constraint.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 18b1e1a..5e06f67 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -12,7 +12,8 @@ struct WorkspaceDenseHermitian {
   WorkspaceDenseHermitian(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDenseHermitian& o) { return size_of(o.n_); }
diff --git a/conex/psd_constraint.h b/conex/psd_constraint.h
index 5d01ed2..a088c0b 100644
--- a/conex/psd_constraint.h
+++ b/conex/psd_constraint.h
@@ -11,7 +11,8 @@ struct WorkspaceDensePSD {
   WorkspaceDensePSD(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDensePSD& o) { return size_of(o.n_); }
-- 
2.43.0


From 12fa26dfe5f6736bb49f4130a5db86a9a86345b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:17 +0000
Subject: [PATCH 33/38] fix: keep the dual variable of Hermitian constraints in
 step with the iterate

SetIdentity assigned a new matrix to the iterate and freed the storage that
the dual variable was read from; the octonion step never updated it.
---
 conex/hermitian_psd.cc | 1 +
 conex/hermitian_psd.h  | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index c4e17c0..672ccd1 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -124,6 +124,7 @@ bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   }
 
   o->W = GeodesicUpdateScaled(o->W, minus_s);
+  o->UpdateDualVariableView();
   return true;
 }
 
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 5e06f67..d6a8893 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -55,6 +55,7 @@ class HermitianPsdConstraint {
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
     o->W = T::Identity(o->rank_);
+    o->UpdateDualVariableView();
   }
   friend int Rank(const HermitianPsdConstraint& o) { return o.rank_; };
 
@@ -96,6 +97,13 @@ class HermitianPsdConstraint {
   Matrix WS;
   Matrix minus_s;
 
+  // The dual-variable-interface reads the real part of W through the workspace.
+  // Assigning to W can free the storage that the workspace referred to.
+  void UpdateDualVariableView() {
+    new (&workspace_.W) Eigen::Map<DenseMatrix, Eigen::Aligned>(
+        W.at(0).data(), rank_, rank_);
+  }
+
   double EvalDualConstraint(int j, const Matrix& W) {
     return T::TraceInnerProduct(constraint_matrices_.at(j), W);
   }
-- 
2.43.0


From 296ed4b8480bea6139cde8605788efdb39b463e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 34/38] fix: apply the affine step to the iterate of
 second-order cone constraints

PrepareStep ignored the affine flag and left the square root of the iterate.
---
 conex/soc_constraint.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index 8bea18e..0013582 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -254,8 +254,19 @@ void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
 
-  // e - Q(w^{1/2})(C-A^y)
   int n = minus_s.rows();
+  if (opt.affine) {
+    Eigen::VectorXd w(n);
+    w(0) = *o->workspace_.W0;
+    w.bottomRows(n - 1) = o->workspace_.W1;
+    Eigen::VectorXd wn =
+        (1 + opt.e_weight) * w + QuadraticRepresentation(w, minus_s);
+    *o->workspace_.W0 = wn(0);
+    o->workspace_.W1 = wn.bottomRows(n - 1);
+    return;
+  }
+
+  // e - Q(w^{1/2})(C-A^y)
   auto wsqrt = Sqrt(*o->workspace_.W0, o->workspace_.W1);
   *o->workspace_.W0 = wsqrt(0, 0);
   o->workspace_.W1 = wsqrt.bottomRows(n - 1);
-- 
2.43.0


From cd38e5b2d2c74ca26ee41a06f8a55e0587410917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 35/38] fix: apply the affine step to the iterate of quadratic
 cone constraints

---
 conex/quadratic_cone_constraint.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 8ebfce6..993c31b 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -185,6 +185,22 @@ void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
     double minus_s_0;
     o->ComputeNegativeSlack(opt.c_weight, y, &minus_s_0, &minus_s_1);
 
+    if (opt.affine) {
+      auto& w_q0 = *o->workspace_.W0;
+      auto& w_q1 = o->workspace_.W1;
+      auto& temp = o->workspace_.temp2_1;
+      double wsw_q0;
+      auto& wsw_q1 = o->workspace_.temp3_1;
+      QuadraticRepresentation(SquaredNorm(o->Q_, w_q1, &temp),
+                              InnerProduct(o->Q_, w_q1, minus_s_1, &temp),
+                              w_q0, w_q1, minus_s_0, minus_s_1, &wsw_q0,
+                              &wsw_q1);
+      w_q0 = (1 + opt.e_weight) * w_q0 + wsw_q0;
+      w_q1 = (1 + opt.e_weight) * w_q1 + wsw_q1;
+      Eigen::internal::set_is_malloc_allowed(true);
+      return;
+    }
+
     wsqrt_q1 = o->workspace_.W1;
     Sqrt(Norm(o->Q_, wsqrt_q1, &o->workspace_.temp2_1), &wsqrt_q0, &wsqrt_q1);
 
-- 
2.43.0


From 35faf53d91cdeff299a1860d39b56376ab8fee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 36/38] fix: apply the affine step to the iterate of octonion
 constraints

---
 conex/hermitian_psd.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 672ccd1..85bebfb 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -135,6 +135,13 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
   auto& minus_s = o->minus_s;
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
 
+  if (opt.affine) {
+    auto WSW = T::QuadraticRepresentation(o->W, minus_s);
+    o->W = T::Add(T::ScalarMultiply(o->W, 1 + opt.e_weight), WSW);
+    o->UpdateDualVariableView();
+    return;
+  }
+
   // || e - Q(w^{1/2}) s\|
   double trace_ws = T::TraceInnerProduct(o->W, minus_s);
   info->normsqrd =
-- 
2.43.0


From 879d12d2dc77568038c1bf1ca1615a1f08877f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:46 +0000
Subject: [PATCH 37/38] fix: report the iterate of second-order and quadratic
 cones as their dual variable

---
 conex/quadratic_cone_constraint.cc | 3 +++
 conex/soc_constraint.cc            | 2 ++
 conex/soc_constraint.h             | 1 +
 conex/workspace_soc.h              | 7 +++++++
 4 files changed, 13 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 993c31b..a5ac943 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -197,6 +197,7 @@ void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                               &wsw_q1);
       w_q0 = (1 + opt.e_weight) * w_q0 + wsw_q0;
       w_q1 = (1 + opt.e_weight) * w_q1 + wsw_q1;
+      o->workspace_.UpdateDualVariable();
       Eigen::internal::set_is_malloc_allowed(true);
       return;
     }
@@ -248,6 +249,7 @@ bool TakeStep(QuadraticConstraintBase* o, const StepOptions& options) {
       wsqrt_q1_norm_sqr,
       InnerProduct(o->Q_, wsqrt_q1, expd_q1, &o->workspace_.temp1_1), wsqrt_q0,
       wsqrt_q1, expd_q0, expd_q1, o->workspace_.W0, &o->workspace_.W1);
+  o->workspace_.UpdateDualVariable();
   return true;
 }
 
@@ -306,6 +308,7 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
 void SetIdentity(QuadraticConstraintBase* o) {
   *o->workspace_.W0 = 1;
   o->workspace_.W1.setZero();
+  o->workspace_.UpdateDualVariable();
 }
 
 }  // namespace conex
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index 0013582..38ad40e 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -239,6 +239,7 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
   auto wn = QuadraticRepresentation(wsqrt, expd);
   *o->workspace_.W0 = wn(0, 0);
   o->workspace_.W1 = wn.bottomRows(n - 1);
+  o->workspace_.UpdateDualVariable();
 
   if (o->workspace_.W1.norm() > *o->workspace_.W0) {
     DUMP(o->workspace_.W1.norm());
@@ -263,6 +264,7 @@ void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
         (1 + opt.e_weight) * w + QuadraticRepresentation(w, minus_s);
     *o->workspace_.W0 = wn(0);
     o->workspace_.W1 = wn.bottomRows(n - 1);
+    o->workspace_.UpdateDualVariable();
     return;
   }
 
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index 8295903..343f34e 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -30,6 +30,7 @@ class SOCConstraint {
   friend void SetIdentity(SOCConstraint* o) {
     *o->workspace_.W0 = 1;
     o->workspace_.W1.setZero();
+    o->workspace_.UpdateDualVariable();
   }
   friend void PrepareStep(SOCConstraint* o, const StepOptions& opt,
                           const Ref& y, StepInfo* data);
diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 5302474..d605895 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -40,6 +40,13 @@ struct WorkspaceSOC {
   Eigen::Map<DenseMatrix, Eigen::Aligned> temp2_1{NULL, 0, 0};
   Eigen::Map<DenseMatrix, Eigen::Aligned> temp3_1{NULL, 0, 0};
 
+  // Copies the iterate (W0, W1) to the variable read by the dual variable
+  // interface.
+  void UpdateDualVariable() {
+    W(0, 0) = *W0;
+    W.bottomRows(n_) = W1;
+  }
+
   // Dummy to make dual variable interface happy
   // TODO(FrankPermenter): Remove this.
   int n_;
-- 
2.43.0


From 940cf2f6745f17913ec61b56f4e42004ca400ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:01 +0000
Subject: [PATCH 38/38] fix: start the eigenvalue approximation of Hermitian
 cones reproducibly

---
 conex/hermitian_psd.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 85bebfb..abd7f8a 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -6,6 +6,23 @@ namespace conex {
 
 using Eigen::MatrixXd;
 
+namespace {
+
+// Generic start for ApproximateEigenvalues. It is the same in every call, so
+// that solves are reproducible.
+template <typename T>
+typename T::Matrix StartVector(int n) {
+  auto v = T::Zero(n, 1);
+  for (size_t i = 0; i < v.size(); i++) {
+    for (int j = 0; j < n; j++) {
+      v.at(i)(j, 0) = std::cos(1.0 + 2.0 * (j + n * i));
+    }
+  }
+  return v;
+}
+
+}  // namespace
+
 template <typename T>
 bool TakeStep(HermitianPsdConstraint<T>* o, const StepOptions& opt) {
   auto& WS = o->WS;
@@ -56,7 +73,8 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
     return;
   }
 
-  auto gw_eig = T::ApproximateEigenvalues(WS, o->W, T::Random(n, 1), n / 2 + 1);
+  auto gw_eig =
+      T::ApproximateEigenvalues(WS, o->W, StartVector<T>(n), n / 2 + 1);
   const double lambda_1 = std::fabs(opt.e_weight + gw_eig.minCoeff());
   const double lambda_2 = std::fabs(opt.e_weight + gw_eig.maxCoeff());
   double norminf = lambda_1;
@@ -78,7 +96,8 @@ void GetWeightedSlackEigenvalues(HermitianPsdConstraint<T>* o, const Ref& y,
 
   int n = Rank(*o);
   auto WS = T::Multiply(o->W, minus_s);
-  auto gw_eig = T::ApproximateEigenvalues(WS, o->W, T::Random(n, 1), n / 2 + 1);
+  auto gw_eig =
+      T::ApproximateEigenvalues(WS, o->W, StartVector<T>(n), n / 2 + 1);
 
   const double lambda_max = -gw_eig.minCoeff();
   const double lambda_min = -gw_eig.maxCoeff();
-- 
2.43.0

