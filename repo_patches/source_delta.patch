From cf3497892811c737b23f8f68bb5cb467d6bf029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 01/46] fix: GenericPriorFactor returns one (empty) Jacobian
 block for a constant variable

---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From a528ddac8f98daf6e2e44294ae05d6a06e7e8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 02/46] fix: CoordinateTransformFactor resizes a mis-sized
 Jacobian output to its 5 variables

---
 src/factorama/coordinate_transform_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..e877ab3 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -116,7 +116,7 @@ namespace factorama
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From db23a01ec5f325f16ba50a61a3faebab31eb844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 03/46] fix: PlaneFactor distance scaling measures n.p + d, the
 plane's own signed distance

---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From e125d4b0f8e181146cf30f3fdee9d77d4e043149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 04/46] fix: finalize_structure drops the Jacobians and
 residual cached for the previous structure

---
 src/factorama/factor_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..70b156a 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -363,6 +363,11 @@ namespace factorama
 
         sparse_jacobian_components_ = std::vector<std::vector<Eigen::MatrixXd>>(factors_.size());
 
+        // Whatever was cached for a previous structure no longer describes this one
+        sparse_jacobian_valid_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+
         structure_finalized_ = true;
     }
 
-- 
2.43.0


From 196330a349d4ff2c490f6451ca030789b53f70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 05/46] fix: a graph changed after finalize_structure (or whose
 finalize threw) is not treated as finalized

---
 src/factorama/factor_graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 70b156a..09aa8c5 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -13,6 +13,7 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        structure_finalized_ = false; // placements and cached Jacobians no longer cover the graph
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -23,6 +24,7 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        structure_finalized_ = false; // placements and cached Jacobians no longer cover the graph
     }
 
     Variable *FactorGraph::get_variable(int id) const
@@ -231,6 +233,8 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Not finalized again until every check below has passed
+        structure_finalized_ = false;
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From d140438863e20b73b98f09fd5087c422282e3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 06/46] fix: wrong-sized value and increment vectors are
 rejected before anything is written

---
 src/factorama/factor_graph.cpp           | 11 +++++++++++
 src/factorama/inverse_range_variable.cpp |  3 +++
 src/factorama/landmark_variable.hpp      |  8 +++++++-
 src/factorama/pose_variable.cpp          |  3 +++
 src/factorama/rotation_variable.hpp      |  6 ++++++
 5 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 09aa8c5..2060c59 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -73,6 +73,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int expected_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                expected_size += var->size();
+            }
+        }
+        if (x.size() != expected_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(expected_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From 3850161ce560371ba9c7abf19057a74154b3c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 07/46] fix: PoseVariable keeps rotation increments below 1e-8
 rad instead of discarding them

---
 src/factorama/pose_variable.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index 403569e..82a9603 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -65,16 +65,8 @@ namespace factorama
 
     void PoseVariable::recompute_dcm_CW()
     {
-        Eigen::Vector3d rot_CW_tmp = rot_CW(); // [rx, ry, rz]
-        double angle = rot_CW_tmp.norm();
-
-        if (angle < 1e-8) {
-            dcm_CW_ = Eigen::Matrix3d::Identity();
-            return;
-        }
-
-        Eigen::Vector3d axis = rot_CW_tmp / angle;
-        dcm_CW_ = Eigen::AngleAxisd(angle, axis).toRotationMatrix();
+        // ExpMapSO3 keeps rotations of any size, so that tiny increments accumulate
+        dcm_CW_ = ExpMapSO3(rot_CW());
     }
 
     void PoseVariable::set_pose_vector(Eigen::Matrix<double, 6, 1> pose)
-- 
2.43.0


From 2548a56204cafb6d5c4251b57a9de3007149d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 08/46] fix: HuberKernel scales Jacobians by the derivative of
 the weight it applies to the residual

---
 src/factorama/kernels.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..4e60ba6 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -54,11 +54,14 @@ namespace factorama
                 return;
             }
 
-            // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
+            // Chain rule: w * J_r + r * (dw/d||r||) * (r^T * J_r) / ||r||
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm); // (dw/d||r||) / ||r||
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From f20b0c09bb6be0c6a9857c1f06347a70edbab1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 09/46] fix: covariances are those of the current estimate,
 also when optimize is called again

---
 src/factorama/sparse_optimizer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..29881c2 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -148,6 +148,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // Anything prepared for covariance estimation belongs to an earlier run
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
@@ -539,8 +543,9 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Get the sparse jacobian at the current estimate (the last one computed was
+        // linearized before the final step was applied)
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
-- 
2.43.0


From ec7440216e6b88da1ca12f719555758792c8bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 10/46] fix: Levenberg-Marquardt keeps lambda within max_lambda
 when a factorization is rejected too

---
 src/factorama/sparse_optimizer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 29881c2..31819fb 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -360,7 +360,8 @@ namespace factorama
             sparse_solver_.compute(H);
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -376,7 +377,8 @@ namespace factorama
 
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -388,7 +390,8 @@ namespace factorama
 
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
-                current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 7b55768e5499dd2664758cbd2bca5b0d85e1aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 11/46] fix: Levenberg-Marquardt started at the optimum reports
 success, as Gauss-Newton does

---
 src/factorama/sparse_optimizer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 31819fb..7736818 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -336,6 +336,7 @@ namespace factorama
         }
 
         bool step_accepted = false;
+        bool already_converged = false; // the first step tried was within the step tolerance
         Eigen::VectorXd dx;
         double new_cost = current_cost;
         int lm_attempts = 0;
@@ -402,6 +403,10 @@ namespace factorama
 
             dx *= settings_.learning_rate;
 
+            if (lm_attempts == 0) {
+                already_converged = dx.norm() < settings_.step_tolerance;
+            }
+
             // Step 4: Apply increment to variables (temporarily)
             update_vars_stopwatch_.start();
             std::vector<Eigen::VectorXd> original_values;
@@ -479,8 +484,9 @@ namespace factorama
         if (!step_accepted) {
 
             double initial_cost = initial_stats_.chi2 * 0.5;
-            if (current_cost < initial_cost) {
-                // cost has gone down since the beginning, so we will call this a win
+            if (current_cost < initial_cost || already_converged) {
+                // cost has gone down since the beginning (or there was nothing left to gain), so we will call this a
+                // win
                 current_stats_.valid = true;
                 current_stats_.status = OptimizerStatus::SUCCESS;
 
-- 
2.43.0


From 10dabeef5cc0b01def739bec210ddc2879c2e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 12/46] fix: optimizing a graph without free variables succeeds
 instead of crashing in the solver

---
 src/factorama/sparse_optimizer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 7736818..37f8a20 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -187,6 +187,13 @@ namespace factorama
 
         auto start_time = std::chrono::high_resolution_clock::now();
 
+        if (graph_->num_values() == 0) {
+            // Every variable is constant: there is nothing to solve for
+            current_stats_.status = OptimizerStatus::SUCCESS;
+            optimization_complete_ = true;
+            return;
+        }
+
         // Main optimization loop (following SPARSE METHOD 2 pattern)
         for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
@@ -545,7 +552,7 @@ namespace factorama
             return;
         }
 
-        if (!optimization_complete_) {
+        if (!optimization_complete_ || graph_->num_values() == 0) {
 
             return;
         }
-- 
2.43.0


From 6f1dbdabbfdb642fee571e1f25e7483c53c90b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 13/46] fix: Python factors keep the variables they refer to
 alive

---
 .../python/factorama/_factorama.cpp           | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..2d6bdcf 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -161,6 +161,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::BearingObservationFactor, std::shared_ptr<factorama::BearingObservationFactor>, factorama::Factor>(m, "BearingObservationFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
@@ -170,12 +171,14 @@ PYBIND11_MODULE(_factorama, m) {
                std::shared_ptr<factorama::GenericPriorFactor>, 
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a GenericPriorFactor",
              py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
@@ -183,63 +186,75 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a GenericBetweenFactor",
              py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a LinearVelocityFactor",
              py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PosePositionPriorFactor",
              py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PoseOrientationPriorFactor",
              py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PosePositionBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false);
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PoseOrientationBetweenFactor",
              py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
+             py::keep_alive<1, 3>(),
              "Create a RotationPriorFactor",
              py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor with distance scaling",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
+             py::keep_alive<1, 3>(),
              "Create a PlanePriorFactor",
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
@@ -247,6 +262,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a RangeBearingFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
@@ -256,12 +272,14 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
+             py::keep_alive<1, 3>(),
              "Create a Pose2DPriorFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"));
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a Pose2DBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
@@ -270,6 +288,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::RotationVariable*, factorama::GenericVariable*,
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>(),
              "Create a CoordinateTransformFactor",
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
@@ -318,7 +337,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
         .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -352,7 +371,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
-- 
2.43.0


From 863dbdc6cdb3282de6fe86d6d2954ead84359aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 14/46] fix: FactorGraph.get_variable and Factor.variables no
 longer hand Python ownership of the variables

---
 python_bindings/python/factorama/_factorama.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 2d6bdcf..bdf1f7c 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -94,7 +94,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -347,7 +347,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
              py::return_value_policy::reference)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable",
+             [](const factorama::FactorGraph& self, int id) -> std::shared_ptr<factorama::Variable> {
+                 // Shared with the graph: a bare pointer would hand Python a second owner
+                 for (const auto& variable : self.get_all_variables()) {
+                     if (variable->id() == id) {
+                         return variable;
+                     }
+                 }
+                 return nullptr;
+             })
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
-- 
2.43.0


From 7fa235bfafff328e3b765f1aadc72b861f14a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 15/46] fix: arrays and settings returned to Python do not
 dangle when their owner goes away

---
 .../python/factorama/_factorama.cpp           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index bdf1f7c..6b7f5a9 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::reference_internal)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference_internal)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference_internal);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference_internal)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference_internal)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference_internal)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -182,7 +182,7 @@ PYBIND11_MODULE(_factorama, m) {
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
@@ -341,11 +341,11 @@ PYBIND11_MODULE(_factorama, m) {
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
         .def("get_variable",
              [](const factorama::FactorGraph& self, int id) -> std::shared_ptr<factorama::Variable> {
@@ -362,9 +362,9 @@ PYBIND11_MODULE(_factorama, m) {
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -390,7 +390,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 9cee68695f762a59efd65efeb44596ee7b969d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 16/46] fix: PlotFactorGraph draws graphs with a
 BearingProjectionFactor2D instead of raising

---
 python_bindings/python/factorama/_factorama.cpp | 3 ++-
 python_bindings/python/factorama/_factorama.pyi | 2 ++
 src/factorama/bearing_projection_factor_2d.hpp  | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 6b7f5a9..7ec6aaf 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -232,7 +232,8 @@ PYBIND11_MODULE(_factorama, m) {
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6)
+        .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs, py::return_value_policy::copy);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index e278786..1c14fc4 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -26,6 +26,8 @@ class BearingProjectionFactor2D(Factor):
         """
         Create a BearingProjectionFactor2D
         """
+    def bearing_C_obs(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[3, 1]"]:
+        ...
 class CoordinateTransformFactor(Factor):
     def __init__(self, id: typing.SupportsInt, rot_AB: RotationVariable, B_origin_A: GenericVariable, scale_AB: GenericVariable, lm_A: LandmarkVariable, lm_B: LandmarkVariable, sigma: typing.SupportsFloat = 1.0) -> None:
         """
diff --git a/src/factorama/bearing_projection_factor_2d.hpp b/src/factorama/bearing_projection_factor_2d.hpp
index 25c0250..be9ca15 100644
--- a/src/factorama/bearing_projection_factor_2d.hpp
+++ b/src/factorama/bearing_projection_factor_2d.hpp
@@ -52,6 +52,7 @@ namespace factorama
         int residual_size() const override { return size_; }
 
         double weight() const { return weight_; }
+        const Eigen::Vector3d& bearing_C_obs() const { return bearing_C_observed_; }
 
         std::string name() const override
         {
-- 
2.43.0


From f7326bde7d8a7416c29f2201579d1c1b5aec4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 17/46] fix: None in place of a variable or factor raises
 TypeError in Python instead of crashing

---
 .../python/factorama/_factorama.cpp           | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 7ec6aaf..79e4c4a 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -163,7 +163,7 @@ PYBIND11_MODULE(_factorama, m) {
                       const Eigen::Vector3d&, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
 
@@ -173,14 +173,14 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              py::keep_alive<1, 3>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("variable").none(false), py::arg("prior_value"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create an InverseRangeBearingFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("inverse_range_var").none(false), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
@@ -188,50 +188,50 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_a").none(false), py::arg("var_b").none(false), py::arg("measured_diff").none(false), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              py::keep_alive<1, 3>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose").none(false), py::arg("pos_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              py::keep_alive<1, 3>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose").none(false), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PosePositionBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_diff").none(false),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false);
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
+             py::arg("id"), py::arg("pose1").none(false), py::arg("pose2").none(false), py::arg("calibration_rotation_12").none(false), py::arg("angle_sigma") = 1.0);
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              py::keep_alive<1, 3>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("rotation").none(false), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingProjectionFactor2D",
-             py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
+             py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6)
         .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs, py::return_value_policy::copy);
 
@@ -239,25 +239,25 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma") = 1.0)
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a PlaneFactor with distance scaling",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              py::keep_alive<1, 3>(),
              "Create a PlanePriorFactor",
-             py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
+             py::arg("id"), py::arg("plane").none(false), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a BearingObservationFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
 
@@ -265,7 +265,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              "Create a RangeBearingFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
              py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
         .def("range_obs", &factorama::RangeBearingFactor2D::range_obs)
@@ -275,14 +275,14 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              py::keep_alive<1, 3>(),
              "Create a Pose2DPriorFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"));
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
              "Create a Pose2DBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_between_variable").none(false),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
 
     py::class_<factorama::CoordinateTransformFactor, std::shared_ptr<factorama::CoordinateTransformFactor>, factorama::Factor>(m, "CoordinateTransformFactor")
@@ -291,8 +291,8 @@ PYBIND11_MODULE(_factorama, m) {
                       factorama::LandmarkVariable*, double>(),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>(),
              "Create a CoordinateTransformFactor",
-             py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
-             py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
+             py::arg("id"), py::arg("rot_AB").none(false), py::arg("B_origin_A").none(false),
+             py::arg("scale_AB").none(false), py::arg("lm_A").none(false), py::arg("lm_B").none(false),
              py::arg("sigma") = 1.0)
         .def("weight", &factorama::CoordinateTransformFactor::weight);
 
@@ -337,8 +337,9 @@ PYBIND11_MODULE(_factorama, m) {
     // Bind main classes
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
-        .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
+        .def("add_variable", &factorama::FactorGraph::add_variable, py::arg("variable").none(false))
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>(),
+             py::arg("factor").none(false))
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-- 
2.43.0


From 976bb86b939f62e334017410fda8963a877f85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 18/46] fix: BearingProjectionFactor2D down-weights a landmark
 at the camera instead of returning NaN Jacobians

---
 src/factorama/bearing_projection_factor_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/bearing_projection_factor_2d.cpp b/src/factorama/bearing_projection_factor_2d.cpp
index 7b8cc3e..4700c04 100644
--- a/src/factorama/bearing_projection_factor_2d.cpp
+++ b/src/factorama/bearing_projection_factor_2d.cpp
@@ -111,7 +111,7 @@ namespace factorama
         // (unit vector)
         Eigen::Vector3d pos_C = dcm_CW * (pos_W - pos_W_cam);
         double pos_C_norm = pos_C.norm();
-        Eigen::Vector3d bearing_C = pos_C / pos_C_norm;
+        Eigen::Vector3d bearing_C = pos_C.normalized(); // zero, not NaN, for a landmark at the camera
 
         // Compute along-ray depth
         double depth = bearing_C_observed_.dot(bearing_C);
-- 
2.43.0


From 3afee05641a04f62180b2555b80435571fcbd704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 19/46] fix: the sparse Jacobian of a graph without free values
 can be computed more than once

---
 src/factorama/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 2060c59..7d99825 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -694,8 +694,8 @@ namespace factorama
         int running_index = 0;
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
-        // Validate preconditions
-        if (!values) {
+        // Validate preconditions (a matrix without entries has no storage)
+        if (!values && total_nonzeros > 0) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
         }
         if (total_nonzeros < 0) {
-- 
2.43.0


From 8ee24cef92005db8dba88062d3b5c2566a1d4daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 20/46] fix: print_jacobian_and_residual of a graph without
 free values no longer reads a singular value that is not there

---
 src/factorama/factor_graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 7d99825..5ce792b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -539,9 +539,11 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        if (cached_jacobian_.size() > 0) { // an empty matrix has no singular values
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
-- 
2.43.0


From 74a057334597ef45f87b48d0e0bb252304153117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 21/46] fix: re-finalizing to a smaller structure no longer
 scrambles the sparse Jacobian of later evaluations

---
 src/factorama/factor_graph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 5ce792b..35176b7 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -485,7 +485,11 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
+            // Later evaluations write the values in one run, so no column may have spare room (Eigen leaves some when
+            // the matrix still owns the storage of a larger structure)
+            if (num_values_ > 0) {
+                sparse_jacobian_.makeCompressed();
+            }
             sparse_jacobian_.finalize();
         } else {
             // subsequent population of sparse_jacobian_
-- 
2.43.0


From 4c58bdf5eab0eab4cddc829659387a4c5cda146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 22/46] fix: covariances are exactly symmetric: the
 symmetrization no longer reads what it overwrites

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 37f8a20..319d7a7 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -679,7 +679,7 @@ namespace factorama
 
         covariance_valid = true;
         // Normalize P to be symmetric
-        P = 0.5 * (P + P.transpose());
+        P = (0.5 * (P + P.transpose())).eval();
         return P;
     }
 
-- 
2.43.0


From d59576ce134a0cfd8a60e31972bbb1195f3379c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 23/46] fix: Gauss-Newton reports FAILED instead of applying a
 step that is not finite

---
 src/factorama/sparse_optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 319d7a7..6ab4577 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -85,6 +85,16 @@ namespace factorama
 
         dx *= settings_.learning_rate;
 
+        if (!dx.allFinite()) {
+            // A factor returned NaN or infinity: such a step would destroy the estimate
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+            if (settings_.verbose) {
+                std::cerr << "[SparseOptimizer] The computed step is not finite.\n";
+            }
+            return;
+        }
+
         // Step 4: Apply increment (todo - push this into the factor graph)
         update_vars_stopwatch_.start();
         const auto& variables = graph_->get_all_variables();
-- 
2.43.0


From d76be8fd4ae643a07036112e191cbd40c9fd6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 24/46] fix: an error during an optimizer step leaves the
 variables at the last good estimate

---
 src/factorama/sparse_optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 6ab4577..5131f00 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -215,8 +215,12 @@ namespace factorama
             // Store previous stats for convergence checking
             auto prev_stats = current_stats_;
 
+            // The last good estimate, in case the step fails half way
+            Eigen::VectorXd prev_values;
+
             // Perform one optimization step based on selected method
             try {
+                prev_values = graph_->get_variable_vector();
                 if (settings_.method == OptimizerMethod::GaussNewton) {
                     single_step_gauss_newton();
                 } else {
@@ -224,6 +228,9 @@ namespace factorama
                 }
             } catch (const std::exception& e) {
                 std::cerr << "[SparseOptimizer] Error in iteration " << i << ": " << e.what() << std::endl;
+                if (prev_values.size() == graph_->num_values()) {
+                    graph_->set_variable_values_from_vector(prev_values);
+                }
                 current_stats_.valid = false;
                 current_stats_.status = OptimizerStatus::FAILED;
                 break;
-- 
2.43.0


From 30a2ec1bc46dc3c308ad7a384f7922fe9ee0bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 25/46] fix: detailed_factor_test rejects Jacobians that
 contain NaN or infinity

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 35176b7..00fd36d 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -648,7 +648,7 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From abeb2140e5012881e90eb40d911c32f32fb867ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 26/46] fix: a covariance with a negative variance is no longer
 flagged valid

---
 src/factorama/sparse_optimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 5131f00..f31905e 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -686,9 +686,11 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
+        double min_diag = P.diagonal().minCoeff();
         double max_diag = P.diagonal().maxCoeff();
 
-        if (max_diag > 1e12) {
+        // Variances are positive; a singular Hessian that rounding made slightly indefinite gives negative ones
+        if (min_diag <= 0.0 || max_diag > 1e12) {
             return Eigen::MatrixXd();
         }
 
-- 
2.43.0


From 1d696971da2564524d174c1464f5793d09587ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 27/46] fix: estimate_covariance of a graph that was finalized
 again since does not index outside the old Hessian

---
 src/factorama/sparse_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index f31905e..9be6b1c 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -666,6 +666,14 @@ namespace factorama
         // Given the placement, grab the indices into the hessian
         int total_hessian_size = cached_hessian_.rows();
         int variable_size = placement.dim;
+        if (variable_size == 0 || graph_->num_values() != total_hessian_size ||
+            placement.index + variable_size > total_hessian_size) {
+            // The structure (or the constant flag) is not the one that the hessian was computed for
+            if (settings_.verbose) {
+                std::cerr << "graph structure changed since the covariances were prepared" << std::endl;
+            }
+            return Eigen::MatrixXd();
+        }
         Eigen::MatrixXd B = Eigen::MatrixXd::Zero(total_hessian_size, variable_size);
 
         for (int i = 0; i < variable_size; i++) {
-- 
2.43.0


From e4dfd4db279353bedab9c3f011be12d248111669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 28/46] fix: print_all_covariances without a graph throws
 instead of dereferencing null

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 9be6b1c..7e1776d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -712,6 +712,10 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
+        if (!graph_) {
+            throw std::runtime_error("[SparseOptimizer] No factor graph set.");
+        }
+
         if (!cached_hessian_valid_for_covariance_est_) {
             prepare_to_estimate_covariances();
         }
-- 
2.43.0


From a2eb8d22b51b3aa93b9fa18989980a9bdbe87c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 29/46] fix: get_variable_vector neither overruns nor returns
 uninitialised values when constant flags changed since finalize_structure

---
 src/factorama/factor_graph.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 00fd36d..88f1c90 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -45,7 +45,15 @@ namespace factorama
 
     Eigen::VectorXd FactorGraph::get_variable_vector() const
     {
-        Eigen::VectorXd x(num_values());
+        // The free variables now: num_values() counts those at the last finalize_structure()
+        int total_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                total_size += var->size();
+            }
+        }
+
+        Eigen::VectorXd x(total_size);
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (var->is_constant()) {
-- 
2.43.0


From b0d0f4839fdcc28ecad2887ad3aafaae17fb0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 30/46] fix: compute_sparse_jacobian_matrix checks the column
 before it reads the column's row counter

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 88f1c90..e44de46 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -438,13 +438,13 @@ namespace factorama
                         double value = Ji(r, c);
                         // int dense_row = row_offset + r;
                         int dense_col = col_offset + c;
-                        int sparse_row = current_row_index[dense_col];
                         // sparse_jacobian_.coeffRef(row_offset + r, col_offset + c) = value;
                         // sparse_jacobian_.insert(row_offset + r, col_offset + c) = value;
                         if (dense_col < 0 || dense_col >= int(sparse_jacobian_data_.size())) {
                             throw std::runtime_error("column index " + std::to_string(dense_col) +
                                                      " out of bounds for sparse jacobian data");
                         }
+                        int sparse_row = current_row_index[dense_col];
 
                         if (sparse_row < 0 || sparse_row >= int(sparse_jacobian_data_[dense_col].size())) {
                             throw std::runtime_error("sparse row index " + std::to_string(sparse_row) +
-- 
2.43.0


From c936eed45892bd0097318338f1f8c62ddb1c432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 31/46] fix: detailed_factor_test of a factor without residuals
 does not take the maximum of an empty Jacobian

---
 src/factorama/factor_graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index e44de46..88fdff9 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -645,6 +645,10 @@ namespace factorama
                     continue;
                 }
 
+                if (J_n.size() == 0) {
+                    continue; // no residuals: there is no largest entry to look for
+                }
+
                 // Compare values
                 Eigen::MatrixXd diff = J_n - J_a; // numerical - analytical
                 double max_jacobian_val = J_n.array().abs().maxCoeff();
-- 
2.43.0


From 410467fb2967751e6cbdc430f74c23f5858390c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 32/46] fix: print_jacobian_and_residual of a Jacobian with NaN
 or infinity does not use a decomposition that was not computed

---
 src/factorama/factor_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 88fdff9..70d7cad 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -551,7 +551,10 @@ namespace factorama
             }
         }
 
-        if (cached_jacobian_.size() > 0) { // an empty matrix has no singular values
+        if (!cached_jacobian_.allFinite()) {
+            // A factor returned NaN or infinity: the decomposition is not defined
+            std::cout << "Jacobian rank: unknown (it contains values that are not finite)\n";
+        } else if (cached_jacobian_.size() > 0) { // an empty matrix has no singular values
             Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
             std::cout << "Jacobian rank: " << svd.rank() << "\n";
             std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
-- 
2.43.0


From 07c190754db1943b0de0df4a97835e6b7ed2e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 33/46] fix: Levenberg-Marquardt does not try steps that are
 not finite on the variables

---
 src/factorama/sparse_optimizer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 7e1776d..67382e7 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -427,6 +427,18 @@ namespace factorama
 
             dx *= settings_.learning_rate;
 
+            if (!dx.allFinite()) {
+                // A factor returned NaN or infinity (or the step overflowed): not a step that can be tried
+                current_stats_.damping_parameter =
+                    std::min(current_stats_.damping_parameter * settings_.lambda_up_factor, settings_.max_lambda);
+                lm_attempts++;
+                if (settings_.verbose) {
+                    std::cout << "[LM] Step is not finite, increasing lambda to " << current_stats_.damping_parameter
+                              << "\n";
+                }
+                continue;
+            }
+
             if (lm_attempts == 0) {
                 already_converged = dx.norm() < settings_.step_tolerance;
             }
-- 
2.43.0


From 2bd414c92fa41ca98b62c76ac2ae0c3b6257befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 34/46] fix: factors reject variables of the wrong size instead
 of reading past them in release builds

---
 src/factorama/bearing_observation_factor_2d.cpp |  4 +++-
 src/factorama/coordinate_transform_factor.hpp   |  9 +++++++--
 src/factorama/generic_between_factor.cpp        | 10 +++++++---
 src/factorama/generic_prior_factor.hpp          |  5 ++++-
 src/factorama/linear_velocity_factor.cpp        | 11 +++++++----
 src/factorama/plane_factor.cpp                  |  9 +++++++--
 src/factorama/pose_2d_between_factor.cpp        |  6 ++++--
 src/factorama/pose_between_factors.hpp          |  5 ++++-
 src/factorama/range_bearing_factor_2d.cpp       |  4 +++-
 9 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/factorama/bearing_observation_factor_2d.cpp b/src/factorama/bearing_observation_factor_2d.cpp
index c5af55e..c7e82d7 100644
--- a/src/factorama/bearing_observation_factor_2d.cpp
+++ b/src/factorama/bearing_observation_factor_2d.cpp
@@ -14,7 +14,9 @@ namespace factorama
         id_ = id;
         assert(pose_var != nullptr && "pose_var cannot be nullptr");
         assert(landmark_var != nullptr && "landmark_var cannot be nullptr");
-        assert(landmark_var->size() == 2 && "landmark_var must be 2D");
+        if (landmark_var->size() != 2) {
+            throw std::invalid_argument("BearingObservationFactor2D: landmark_var must be 2D");
+        }
         assert(angle_sigma > 0.0 && "angle_sigma must be greater than zero");
     }
 
diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e877ab3..a2eb313 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -8,6 +8,7 @@
 #include "factorama/random_utils.hpp"
 #include <Eigen/Dense>
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -54,8 +55,12 @@ namespace factorama
             assert(scale_AB != nullptr && "scale_AB cannot be nullptr");
             assert(lm_A != nullptr && "lm_A cannot be nullptr");
             assert(lm_B != nullptr && "lm_B cannot be nullptr");
-            assert(B_origin_A->size() == 3 && "B_origin_A must be 3D");
-            assert(scale_AB->size() == 1 && "scale_AB must be scalar (1D)");
+            if (B_origin_A->size() != 3) {
+                throw std::invalid_argument("CoordinateTransformFactor: B_origin_A must be 3D");
+            }
+            if (scale_AB->size() != 1) {
+                throw std::invalid_argument("CoordinateTransformFactor: scale_AB must be scalar (1D)");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
         }
 
diff --git a/src/factorama/generic_between_factor.cpp b/src/factorama/generic_between_factor.cpp
index 6420c79..315494f 100644
--- a/src/factorama/generic_between_factor.cpp
+++ b/src/factorama/generic_between_factor.cpp
@@ -1,5 +1,6 @@
 #include "generic_between_factor.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -15,9 +16,12 @@ namespace factorama
         assert(var_a != nullptr && "var_a cannot be nullptr");
         assert(var_b != nullptr && "var_b cannot be nullptr");
         assert(measured_diff != nullptr && "measured_diff cannot be nullptr");
-        assert(var_a_->size() == var_b_->size() && "BetweenFactor: variable size mismatch");
-
-        assert(var_a_->size() == measured_diff_->size() && "BetweenFactor: measured_diff size mismatch");
+        if (var_a_->size() != var_b_->size()) {
+            throw std::invalid_argument("BetweenFactor: variable size mismatch");
+        }
+        if (var_a_->size() != measured_diff_->size()) {
+            throw std::invalid_argument("BetweenFactor: measured_diff size mismatch");
+        }
 
         assert(sigma > 0.0 && "BetweenFactor: sigma must be greater than zero");
 
diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 6ab81d6..85bcecf 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "factorama/base_types.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -34,7 +35,9 @@ namespace factorama
         {
             id_ = id;
             assert(variable != nullptr && "variable cannot be nullptr");
-            assert(prior_.size() == variable_->size() && "Prior size must match variable size");
+            if (prior_.size() != variable_->size()) {
+                throw std::invalid_argument("GenericPriorFactor: prior size must match variable size");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
             size_ = prior_.size();
         }
diff --git a/src/factorama/linear_velocity_factor.cpp b/src/factorama/linear_velocity_factor.cpp
index bbf17d2..69c9e58 100644
--- a/src/factorama/linear_velocity_factor.cpp
+++ b/src/factorama/linear_velocity_factor.cpp
@@ -1,4 +1,5 @@
 #include "factorama/linear_velocity_factor.hpp"
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,10 +18,12 @@ namespace factorama
         assert(var_1 != nullptr && "var_1 cannot be nullptr");
         assert(var_2 != nullptr && "var_2 cannot be nullptr");
         assert(velocity_variable != nullptr && "velocity_variable cannot be nullptr");
-        assert(var_1->size() == var_2->size() && "LinearVelocityFactor: variable size mismatch");
-
-        assert(var_1_->size() >= velocity_variable->size() &&
-               "LinearVelocityFactor: velocity size must be <= the variable sizes");
+        if (var_1->size() != var_2->size()) {
+            throw std::invalid_argument("LinearVelocityFactor: variable size mismatch");
+        }
+        if (initial_index < 0 || var_1->size() < initial_index + velocity_variable->size()) {
+            throw std::invalid_argument("LinearVelocityFactor: the velocity, from initial_index on, must fit in the variables");
+        }
 
         assert(sigma > 0.0 && "LinearVelocityFactor: sigma must be greater than zero");
     }
diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index 65108f6..b78d348 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -1,5 +1,6 @@
 #include "plane_factor.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,7 +18,9 @@ namespace factorama
         id_ = id;
         assert(point_var != nullptr && "point_var cannot be nullptr");
         assert(plane_var != nullptr && "plane_var cannot be nullptr");
-        assert(point_var_->size() == 3 && "PlaneFactor: point variable must be 3D");
+        if (point_var_->size() != 3) {
+            throw std::invalid_argument("PlaneFactor: point variable must be 3D");
+        }
         assert(sigma > 0.0 && "PlaneFactor: sigma must be greater than zero");
     }
 
@@ -33,7 +36,9 @@ namespace factorama
         id_ = id;
         assert(point_var != nullptr && "point_var cannot be nullptr");
         assert(plane_var != nullptr && "plane_var cannot be nullptr");
-        assert(point_var_->size() == 3 && "PlaneFactor: point variable must be 3D");
+        if (point_var_->size() != 3) {
+            throw std::invalid_argument("PlaneFactor: point variable must be 3D");
+        }
         assert(sigma > 0.0 && "PlaneFactor: sigma must be greater than zero");
     }
 
diff --git a/src/factorama/pose_2d_between_factor.cpp b/src/factorama/pose_2d_between_factor.cpp
index 8356856..f5e79ff 100644
--- a/src/factorama/pose_2d_between_factor.cpp
+++ b/src/factorama/pose_2d_between_factor.cpp
@@ -1,5 +1,6 @@
 #include "pose_2d_between_factor.hpp"
 #include <cmath>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,8 +18,9 @@ namespace factorama
         assert(pose_a != nullptr && "pose_a cannot be nullptr");
         assert(pose_b != nullptr && "pose_b cannot be nullptr");
         assert(measured_between_variable != nullptr && "measured_between_variable cannot be nullptr");
-        assert(measured_between_variable->size() == 3 &&
-               "measured_between_variable must be 3-dimensional [dx, dy, dtheta]");
+        if (measured_between_variable->size() != 3) {
+            throw std::invalid_argument("Pose2DBetweenFactor: measured_between_variable must be 3-dimensional [dx, dy, dtheta]");
+        }
         assert(position_sigma > 0.0 && "position_sigma must be greater than zero");
         assert(angle_sigma > 0.0 && "angle_sigma must be greater than zero");
     }
diff --git a/src/factorama/pose_between_factors.hpp b/src/factorama/pose_between_factors.hpp
index 59c0cb6..351109d 100644
--- a/src/factorama/pose_between_factors.hpp
+++ b/src/factorama/pose_between_factors.hpp
@@ -4,6 +4,7 @@
 #include "factorama/pose_variable.hpp"
 #include "factorama/random_utils.hpp"
 #include "factorama/rotation_variable.hpp"
+#include <stdexcept>
 
 namespace factorama
 {
@@ -46,7 +47,9 @@ namespace factorama
             assert(pose_a != nullptr && "pose_a cannot be nullptr");
             assert(pose_b != nullptr && "pose_b cannot be nullptr");
             assert(measured_diff != nullptr && "measured_diff cannot be nullptr");
-            assert(measured_diff_->size() == 3 && "PosePositionBetweenFactor: measured_diff must be 3D");
+            if (measured_diff_->size() != 3) {
+                throw std::invalid_argument("PosePositionBetweenFactor: measured_diff must be 3D");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
         }
 
diff --git a/src/factorama/range_bearing_factor_2d.cpp b/src/factorama/range_bearing_factor_2d.cpp
index f27d1e4..8c51133 100644
--- a/src/factorama/range_bearing_factor_2d.cpp
+++ b/src/factorama/range_bearing_factor_2d.cpp
@@ -17,7 +17,9 @@ namespace factorama
         id_ = id;
         assert(pose_var != nullptr && "pose_var cannot be nullptr");
         assert(landmark_var != nullptr && "landmark_var cannot be nullptr");
-        assert(landmark_var->size() == 2 && "landmark_var must be 2D");
+        if (landmark_var->size() != 2) {
+            throw std::invalid_argument("RangeBearingFactor2D: landmark_var must be 2D");
+        }
         assert(range_obs >= 0.0 && "range_obs must be non-negative");
         assert(range_sigma > 0.0 && "range_sigma must be greater than zero");
         assert(bearing_sigma > 0.0 && "bearing_sigma must be greater than zero");
-- 
2.43.0


From c68f15330a7a28ab589f53244bf1fb811e8e422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 35/46] fix: the sparse Jacobian of a graph without free values
 is compressed, so converting it for Python stays in bounds

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 70d7cad..fed3670 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -380,7 +380,9 @@ namespace factorama
 
         // Preallocate the sparse jacobian
         sparse_jacobian_ = Eigen::SparseMatrix<double>(num_residuals_, num_values_);
-        sparse_jacobian_.reserve(num_sparse_rows);
+        if (num_values_ > 0) { // a matrix without columns stays compressed, Eigen cannot compress it later
+            sparse_jacobian_.reserve(num_sparse_rows);
+        }
 
         sparse_jacobian_initialized_ = true;
 
-- 
2.43.0


From 030b682925ba633414480bfc0a62a13c10555d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 36/46] fix: an increment that cancels a plane's normal is
 refused instead of leaving a plane without a normal

A Gauss-Newton step can land exactly there (a generic prior towards the opposite normal
with learning rate 0.5): release builds went on with a zero normal and debug builds aborted.
---
 src/factorama/plane_variable.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factorama/plane_variable.hpp b/src/factorama/plane_variable.hpp
index a08eede..4ffa4e3 100644
--- a/src/factorama/plane_variable.hpp
+++ b/src/factorama/plane_variable.hpp
@@ -62,10 +62,12 @@ namespace factorama
                 throw std::runtime_error("PlaneVariable::apply_increment(): size mismatch");
             }
             // Apply increment to unit vector and distance, then renormalize
-            unit_vector_ += dx.head<3>();
+            const Eigen::Vector3d normal = unit_vector_ + dx.head<3>();
+            if (normal.squaredNorm() == 0.0) {
+                throw std::runtime_error("PlaneVariable::apply_increment(): increment cancels the normal vector");
+            }
+            unit_vector_ = normal.normalized();
             distance_from_origin_ += dx(3);
-            assert(unit_vector_.squaredNorm() > 0.0 && "normal vector must be nonzero after increment");
-            unit_vector_.normalize();
             value_ << unit_vector_, distance_from_origin_;
         }
 
-- 
2.43.0


From 731a1ac4f5953236ce3757fd32c18a4bb3ad2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 37/46] fix: a variable of another graph has no covariance,
 even if it carries the ID of one that has

---
 src/factorama/sparse_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 67382e7..1efdb2e 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -665,6 +665,14 @@ namespace factorama
 
         int var_id = variable->id();
 
+        if (graph_->get_variable(var_id) != variable) {
+            // A variable of another graph may carry the ID of one of this graph
+            if (settings_.verbose) {
+                std::cerr << "variable is not part of the graph" << std::endl;
+            }
+            return Eigen::MatrixXd();
+        }
+
         bool var_valid;
         auto placement = graph_->variable_placement(var_id, var_valid);
 
-- 
2.43.0


From e566001e9a15e1e279b30d469e42fbd28e85fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 38/46] fix: the Gauss-Newton iteration summary printed the
 final residual norm as the initial one

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 1efdb2e..628229c 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -130,7 +130,7 @@ namespace factorama
             };
 
             std::cout << "\n[SparseGN] Iteration " << current_stats_.current_iteration << " Summary:\n";
-            std::cout << "  Initial residual norm: " << residual2_.norm() << "\n";
+            std::cout << "  Initial residual norm: " << residual1_.norm() << "\n";
             std::cout << "  Final residual norm:   " << current_stats_.residual_norm << "\n";
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
-- 
2.43.0


From 1cef87a0a9fb1e91ce60bfd8ed7f65b59b0b46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 39/46] fix: the Jacobian stopwatch was not reset between runs
 of an optimizer

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 628229c..ada92e8 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -169,7 +169,7 @@ namespace factorama
         current_stats_.current_iteration = 0;
 
         residual_stopwatch_.reset();
-        residual_stopwatch_.reset();
+        jacobian_stopwatch_.reset();
         hessian_stopwatch_.reset();
         solve_stopwatch_.reset();
         update_vars_stopwatch_.reset();
-- 
2.43.0


From b174b6f3980feca78b02eadedb45f087c8a1646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 40/46] fix: Levenberg-Marquardt printed a wrong number of
 attempts when no step was accepted

---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index ada92e8..e5d1528 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -534,7 +534,7 @@ namespace factorama
             }
 
             if (settings_.verbose) {
-                std::cout << "[LM] No acceptable step found after " << max_lm_attempts << " attempts\n";
+                std::cout << "[LM] No acceptable step found after " << lm_attempts << " attempts\n";
             }
             // Set minimal step for convergence detection
             dx = Eigen::VectorXd::Zero(dx.size());
@@ -564,7 +564,7 @@ namespace factorama
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
             std::cout << "  Damping (λ):           " << current_stats_.damping_parameter << "\n";
-            std::cout << "  LM attempts:           " << lm_attempts + 1 << "\n";
+            std::cout << "  LM attempts:           " << (step_accepted ? lm_attempts + 1 : lm_attempts) << "\n";
             std::cout << "  Step accepted:         " << (step_accepted ? "YES" : "NO") << "\n";
             std::cout << "  J: " << J.rows() << " x " << J.cols() << " | nnz = " << J.nonZeros()
                       << " | density = " << 100.0 * J.nonZeros() / double(J.rows() * J.cols()) << " %\n";
-- 
2.43.0


From e83a1003128341a046f252c65abe466758fa5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 41/46] fix: the package stub of PlotFactorGraph lacked two
 parameters

---
 python_bindings/python/factorama/__init__.pyi | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/__init__.pyi b/python_bindings/python/factorama/__init__.pyi
index c1d1b18..cb9180c 100644
--- a/python_bindings/python/factorama/__init__.pyi
+++ b/python_bindings/python/factorama/__init__.pyi
@@ -50,7 +50,9 @@ def PlotFactorGraph(
     axis_handle: Optional[Any] = None,
     plot_covariance: bool = False,
     optimizer: Optional[SparseOptimizer] = None,
-    plot_3d: bool = True
+    plot_3d: bool = True,
+    plot_measurements: bool = True,
+    plot_between_factors: bool = True
 ) -> Any: ...
 
 __all__: list[str] = ['BearingObservationFactor', 'BearingObservationFactor2D', 'BearingProjectionFactor2D', 'CoordinateTransformFactor', 'ExpMapSO3', 'Factor', 'FactorGraph', 'FactorType', 'GenericBetweenFactor', 'GenericPriorFactor', 'GenericVariable', 'InverseRangeBearingFactor', 'InverseRangeVariable', 'LandmarkVariable', 'LinearVelocityFactor', 'LogMapSO3', 'OptimizerMethod', 'OptimizerSettings', 'OptimizerStats', 'OptimizerStatus', 'PlaneFactor', 'PlanePriorFactor', 'PlaneVariable', 'PlotFactorGraph', 'Pose2DBetweenFactor', 'Pose2DPriorFactor', 'Pose2DVariable', 'PoseOrientationBetweenFactor', 'PoseOrientationPriorFactor', 'PosePositionBetweenFactor', 'PosePositionPriorFactor', 'PoseVariable', 'RangeBearingFactor2D', 'RotationPriorFactor', 'RotationVariable', 'SparseOptimizer', 'Variable', 'VariableType']
-- 
2.43.0


From 0c8048352d4a11fceea4684e3e8745c012d6e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 42/46] fix: stubs of get_variable, add_variable and add_factor
 did not match the module

---
 python_bindings/python/factorama/_factorama.pyi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index 1c14fc4..a55cd04 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -51,9 +51,9 @@ class Factor:
 class FactorGraph:
     def __init__(self) -> None:
         ...
-    def add_factor(self, arg0: Factor) -> None:
+    def add_factor(self, factor: Factor) -> None:
         ...
-    def add_variable(self, arg0: Variable) -> None:
+    def add_variable(self, variable: Variable) -> None:
         ...
     def apply_increment(self, arg0: typing.Annotated[numpy.typing.ArrayLike, numpy.float64, "[m, 1]"]) -> None:
         ...
@@ -73,7 +73,7 @@ class FactorGraph:
         ...
     def get_all_variables(self) -> list[Variable]:
         ...
-    def get_variable(self, arg0: typing.SupportsInt) -> Variable:
+    def get_variable(self, arg0: typing.SupportsInt) -> typing.Optional[Variable]:
         ...
     def get_variable_vector(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[m, 1]"]:
         ...
-- 
2.43.0


From 700886f1ae02909874b630608653704cf68c4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 43/46] fix: the stopwatch and the printed solve time followed
 the wall clock

high_resolution_clock is the system clock in libstdc++, so setting the
date while a stopwatch ran made its time wrong, even negative.
---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 src/factorama/stopwatch.hpp        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index e5d1528..2752651 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -195,7 +195,7 @@ namespace factorama
             std::cout << "=================================\n";
         }
 
-        auto start_time = std::chrono::high_resolution_clock::now();
+        auto start_time = std::chrono::steady_clock::now();
 
         if (graph_->num_values() == 0) {
             // Every variable is constant: there is nothing to solve for
@@ -293,7 +293,7 @@ namespace factorama
             }
         }
 
-        auto end_time = std::chrono::high_resolution_clock::now();
+        auto end_time = std::chrono::steady_clock::now();
         std::chrono::duration<double> elapsed_sec = end_time - start_time;
 
         // Set final status if still RUNNING (max iterations reached)
diff --git a/src/factorama/stopwatch.hpp b/src/factorama/stopwatch.hpp
index 814b188..8b5f940 100644
--- a/src/factorama/stopwatch.hpp
+++ b/src/factorama/stopwatch.hpp
@@ -18,7 +18,7 @@ namespace factorama
                 return;
             }
             is_running_ = true;
-            start_time_ = std::chrono::high_resolution_clock::now();
+            start_time_ = std::chrono::steady_clock::now();
         }
 
         void stop()
@@ -26,7 +26,7 @@ namespace factorama
             if (!is_running_) {
                 return;
             }
-            auto end_time = std::chrono::high_resolution_clock::now();
+            auto end_time = std::chrono::steady_clock::now();
             std::chrono::duration<double> duration = end_time - start_time_;
             accumulated_time_ += duration.count();
             is_running_ = false;
@@ -42,7 +42,7 @@ namespace factorama
         {
             double total = accumulated_time_;
             if (is_running_) {
-                auto current_time = std::chrono::high_resolution_clock::now();
+                auto current_time = std::chrono::steady_clock::now();
                 std::chrono::duration<double> duration = current_time - start_time_;
                 total += duration.count();
             }
@@ -52,6 +52,6 @@ namespace factorama
     private:
         bool is_running_;
         double accumulated_time_;
-        std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+        std::chrono::time_point<std::chrono::steady_clock> start_time_;
     };
 } // namespace factorama
-- 
2.43.0


From 14b7a36867a684d033fcd5d1c357546d39cc04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 44/46] fix: a Gauss-Newton step to where a factor has no
 residual destroyed the estimate

---
 src/factorama/sparse_optimizer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 2752651..a3c4b4e 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -236,6 +236,19 @@ namespace factorama
                 break;
             }
 
+            // A Gauss-Newton step can lead to where some factor has no residual: go back to the last good estimate
+            if (std::isnan(current_stats_.residual_norm) && !std::isnan(prev_stats.residual_norm)) {
+                graph_->set_variable_values_from_vector(prev_values);
+                current_stats_.chi2 = prev_stats.chi2;
+                current_stats_.residual_norm = prev_stats.residual_norm;
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+                if (settings_.verbose) {
+                    std::cerr << "[SparseOptimizer] The residual is not a number after the step.\n";
+                }
+                break;
+            }
+
             // Check if step failed due to matrix issues
             if (current_stats_.status == OptimizerStatus::SINGULAR_HESSIAN ||
                 current_stats_.status == OptimizerStatus::ILL_CONDITIONED ||
-- 
2.43.0


From d6cfeab43e823a803443cf5f89349b713d957aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:37 +0000
Subject: [PATCH 45/46] fix: numerical differentiation left a variable
 displaced when the factor raised an error

---
 src/factorama/numerical_jacobian.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/factorama/numerical_jacobian.hpp b/src/factorama/numerical_jacobian.hpp
index 524e913..39f2841 100644
--- a/src/factorama/numerical_jacobian.hpp
+++ b/src/factorama/numerical_jacobian.hpp
@@ -58,16 +58,23 @@ namespace factorama
                     Eigen::VectorXd dx = Eigen::VectorXd::Zero(var_dim);
                     dx[k] = epsilon;
 
-                    // Apply +epsilon
-                    var->apply_increment(dx);
-                    Eigen::VectorXd res_plus = factor.compute_residual();
+                    Eigen::VectorXd res_plus, res_minus;
+                    try {
+                        // Apply +epsilon
+                        var->apply_increment(dx);
+                        res_plus = factor.compute_residual();
 
-                    // Reset
-                    var->set_value_from_vector(x0);
+                        // Reset
+                        var->set_value_from_vector(x0);
 
-                    // Apply -epsilon
-                    var->apply_increment(-dx);
-                    Eigen::VectorXd res_minus = factor.compute_residual();
+                        // Apply -epsilon
+                        var->apply_increment(-dx);
+                        res_minus = factor.compute_residual();
+                    } catch (...) {
+                        // The factor refused the perturbed state: it must not stay there
+                        var->set_value_from_vector(x0);
+                        throw;
+                    }
 
                     // Reset again
                     var->set_value_from_vector(x0);
-- 
2.43.0


From 74c4b7a80d5846cb7e11c9a07fc9edfdb1df97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:45 +0000
Subject: [PATCH 46/46] fix: covariances prepared before the graph's structure
 changed were given to other variables

---
 src/factorama/sparse_optimizer.cpp | 24 +++++++++++++++++++++---
 src/factorama/sparse_optimizer.hpp |  3 +++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a3c4b4e..a9b8fc5 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -585,14 +585,31 @@ namespace factorama
         }
     }
 
+    bool SparseOptimizer::cached_hessian_is_of_current_structure() const
+    {
+        const auto& placements = graph_->variable_placement_map();
+        if (placements.size() != cached_hessian_placement_.size()) {
+            return false;
+        }
+        for (const auto& [id, placement] : placements) {
+            auto it = cached_hessian_placement_.find(id);
+            if (it == cached_hessian_placement_.end() || it->second.variable != placement.variable ||
+                it->second.index != placement.index || it->second.dim != placement.dim) {
+                return false;
+            }
+        }
+        return true;
+    }
+
     void SparseOptimizer::prepare_to_estimate_covariances()
     {
         // Assume the graph has already been optimized - estimate the covariance of each variable
 
-        if (cached_hessian_valid_for_covariance_est_) {
+        if (cached_hessian_valid_for_covariance_est_ && cached_hessian_is_of_current_structure()) {
             // early end, if it was already valid
             return;
         }
+        cached_hessian_valid_for_covariance_est_ = false;
 
         if (!optimization_complete_ || graph_->num_values() == 0) {
 
@@ -632,6 +649,7 @@ namespace factorama
             // Note: We still allow covariance estimation to proceed, but warn the user
         }
 
+        cached_hessian_placement_ = graph_->variable_placement_map();
         cached_hessian_valid_for_covariance_est_ = true;
 
         if (settings_.verbose) {
@@ -699,8 +717,8 @@ namespace factorama
         // Given the placement, grab the indices into the hessian
         int total_hessian_size = cached_hessian_.rows();
         int variable_size = placement.dim;
-        if (variable_size == 0 || graph_->num_values() != total_hessian_size ||
-            placement.index + variable_size > total_hessian_size) {
+        if (variable_size == 0 || placement.index + variable_size > total_hessian_size ||
+            !cached_hessian_is_of_current_structure()) {
             // The structure (or the constant flag) is not the one that the hessian was computed for
             if (settings_.verbose) {
                 std::cerr << "graph structure changed since the covariances were prepared" << std::endl;
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index 93dee55..505e78c 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -151,6 +151,8 @@ namespace factorama
         OptimizerSettings settings_;
         std::shared_ptr<FactorGraph> graph_;
 
+        bool cached_hessian_is_of_current_structure() const;
+
         bool optimization_complete_ = false;
 
         // ---- Cached Jacobian Pattern ----
@@ -160,6 +162,7 @@ namespace factorama
         // Cached Hessian (for covariance estimates)
         bool cached_hessian_valid_for_covariance_est_ = false;
         Eigen::SparseMatrix<double> cached_hessian_;
+        std::unordered_map<int, VariablePlacement> cached_hessian_placement_; // where each variable is in it
 
         // Cached Residuals
         Eigen::VectorXd residual1_;
-- 
2.43.0

