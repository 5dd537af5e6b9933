From 78b53703b1acfb139250a736805d7638027e113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 01/41] fix: GenericPriorFactor returned two Jacobian blocks
 when its variable is constant

---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 4603b39cafba2b01eff4de6ba0c15f610dcbc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 02/41] fix: CoordinateTransformFactor indexed past a Jacobian
 list it had resized to two

---
 src/factorama/coordinate_transform_factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..875ca08 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -111,12 +111,12 @@ namespace factorama
             double scale = scale_AB_->value()[0];
             const Eigen::Vector3d& lm_B = lm_B_->value();
 
-            // Ensure jacobians vector has correct size for 2 variables
+            // Ensure jacobians vector has correct size for 5 variables
             if (jacobians_out.size() == 0) {
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From f9bc716e759ca4a677fdc27fee52d3c208e46115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 03/41] fix: PlaneFactor's distance-scaled mode took the plane
 offset with the wrong sign

---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From d34cce818adbfff66f99c4d8882d5af6b139c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 04/41] fix: BearingProjectionFactor2D's Jacobian divided by a
 zero range when the landmark is at the camera

---
 src/factorama/bearing_projection_factor_2d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factorama/bearing_projection_factor_2d.cpp b/src/factorama/bearing_projection_factor_2d.cpp
index 7b8cc3e..ac0ad63 100644
--- a/src/factorama/bearing_projection_factor_2d.cpp
+++ b/src/factorama/bearing_projection_factor_2d.cpp
@@ -111,13 +111,13 @@ namespace factorama
         // (unit vector)
         Eigen::Vector3d pos_C = dcm_CW * (pos_W - pos_W_cam);
         double pos_C_norm = pos_C.norm();
-        Eigen::Vector3d bearing_C = pos_C / pos_C_norm;
+        Eigen::Vector3d bearing_C = pos_C.normalized();
 
         // Compute along-ray depth
         double depth = bearing_C_observed_.dot(bearing_C);
 
-        // Handle edge case: if depth too small, zero out Jacobians to avoid reversing
-        if (depth <= reverse_depth_tolerance_) {
+        // Handle edge case: if depth too small (or no direction at all), zero out Jacobians to avoid reversing
+        if (pos_C_norm < 1e-12 || depth <= reverse_depth_tolerance_) {
             if (pose_->is_constant()) {
                 jacobians[0] = Eigen::MatrixXd();
             } else {
-- 
2.43.0


From f6246f2f3aa20676f69fc5ed060fce88b2350bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 05/41] fix: variables accepted value vectors and increments of
 the wrong length

---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..345a24a 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("InverseRangeVariable::set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..1db6565 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("LandmarkVariable::set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..68c756f 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("PoseVariable::set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..2477479 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("RotationVariable::set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("RotationVariable::apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From e2010eebd51b3b79acb9c07be74b81bd5754f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 06/41] fix: HuberKernel's Jacobian scaling was not the
 derivative of its residual scaling

---
 src/factorama/kernels.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..28bff65 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -54,9 +54,9 @@ namespace factorama
                 return;
             }
 
-            // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
+            // Chain rule: w * J_r + r * (dw/d||r|| / ||r||) * (r^T * J_r)
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
-- 
2.43.0


From f881a95bc58bdf89b982bc9b4d042e2f22625c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 07/41] fix: HuberKernel multiplied the empty Jacobian blocks
 of constant variables with mismatched sizes

---
 src/factorama/kernels.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index 28bff65..eab9d5f 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -59,6 +59,9 @@ namespace factorama
             double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From eaff066d5c285d41ae4e75803aee99efeb80ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 08/41] fix: adding an empty variable or factor handle to a
 graph dereferenced a null pointer

---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..1c97401 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -7,6 +7,9 @@ namespace factorama
 {
     void FactorGraph::add_variable(const std::shared_ptr<Variable>& variable)
     {
+        if (!variable) {
+            throw std::runtime_error("add_variable: variable is null");
+        }
         if (variables_map_.find(variable->id()) != variables_map_.end()) {
             throw std::runtime_error("Variable with ID " + std::to_string(variable->id()) +
                                      " already exists in factor graph. Variable IDs must be unique.");
@@ -17,6 +20,9 @@ namespace factorama
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
     {
+        if (!factor) {
+            throw std::runtime_error("add_factor: factor is null");
+        }
         if (factors_map_.find(factor->id()) != factors_map_.end()) {
             throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) +
                                      " already exists in factor graph. Factor IDs must be unique.");
-- 
2.43.0


From f9efc7fba4d8e91349b64b8b7cd48bf9e1f39da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 09/41] fix: set_variable_values_from_vector read past the end
 of a vector of the wrong length

---
 src/factorama/factor_graph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 1c97401..712e061 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -77,6 +77,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int total_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                total_size += var->size();
+            }
+        }
+        if (x.size() != total_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(total_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From f855d0ffa15f230a35372745c0af7f40c702c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 10/41] fix: factor_placement() looked factors up by position
 instead of identifier

---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 712e061..e457e97 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -300,7 +300,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -318,7 +318,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -349,7 +349,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -399,7 +399,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            auto factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From 184f626581f93acafd5b8a6520f83457a09f455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 11/41] fix: a graph stayed finalised after variables or
 factors were added to it

---
 src/factorama/factor_graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index e457e97..aa16f0e 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -14,6 +14,7 @@ namespace factorama
             throw std::runtime_error("Variable with ID " + std::to_string(variable->id()) +
                                      " already exists in factor graph. Variable IDs must be unique.");
         }
+        structure_finalized_ = false;
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
     }
@@ -27,6 +28,7 @@ namespace factorama
             throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) +
                                      " already exists in factor graph. Factor IDs must be unique.");
         }
+        structure_finalized_ = false;
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
     }
-- 
2.43.0


From f6d3732942c6adee7fa3fa8144afa4ea86eb9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 12/41] fix: finalize_structure kept results and the finalised
 state of the previous structure

---
 src/factorama/factor_graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index aa16f0e..8bbb044 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -250,6 +250,13 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Until this succeeds the graph has no structure, and nothing cached for the previous one may be used
+        structure_finalized_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+        sparse_jacobian_initialized_ = false;
+        sparse_jacobian_valid_ = false;
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From 8946548d93b282eb09ac63c7f5e82d4224b5b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 13/41] fix: the sparse Jacobian accepted blocks that do not
 fit and wrote them into other columns

---
 src/factorama/factor_graph.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 8bbb044..f81e53d 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -430,6 +430,19 @@ namespace factorama
                 }
                 int col_offset = var_placement.index;
 
+                if (Ji.rows() == 0 || Ji.cols() == 0) {
+                    if (!var->is_constant()) {
+                        throw std::runtime_error("FactorGraph: Jacobian block empty for non-constant variable: " +
+                                                 var->name());
+                    }
+                    continue;
+                }
+
+                if (Ji.rows() != factor_placement.residual_dim || Ji.cols() != var_placement.dim) {
+                    throw std::runtime_error("FactorGraph: Jacobian block size mismatch. factor " + factor->name() +
+                                             ", var " + var->name());
+                }
+
                 // Iterate through each element of the Ji block and add non-zero s
                 for (int r = 0; r < Ji.rows(); ++r) {
                     for (int c = 0; c < Ji.cols(); ++c) {
-- 
2.43.0


From 3789eb9611b52a3056f2e4ea451a7408e653e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 14/41] fix: a failed LM factorisation or solve raised lambda
 above max_lambda

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..1e0f6ae 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -357,6 +357,7 @@ namespace factorama
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -373,6 +374,7 @@ namespace factorama
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -385,6 +387,7 @@ namespace factorama
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 89acf9ba1109a39e29b470f9fe6f022d22b749b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 15/41] fix: a diverged optimisation was reported with valid =
 true

---
 src/factorama/sparse_optimizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 1e0f6ae..2a13211 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -239,6 +239,7 @@ namespace factorama
                 }
                 // Check if we've diverged beyond the initial state
                 if (current_stats_.residual_norm >= initial_stats_.residual_norm) {
+                    current_stats_.valid = false;
                     current_stats_.status = OptimizerStatus::DIVERGED;
                 } else {
                     current_stats_.status = OptimizerStatus::SUCCESS;
-- 
2.43.0


From 126bb7dd2f0b8c3b230fcb0d0b4011c39aca8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 16/41] fix: solve and update stopwatches kept running after a
 failed attempt

---
 src/factorama/sparse_optimizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 2a13211..15e39a5 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -37,6 +37,7 @@ namespace factorama
         solve_stopwatch_.start();
         sparse_solver_.compute(H_);
         if (sparse_solver_.info() != Eigen::Success) {
+            solve_stopwatch_.stop();
             current_stats_.valid = false;
             current_stats_.status = OptimizerStatus::FAILED;
             if (settings_.verbose) {
@@ -356,6 +357,7 @@ namespace factorama
             solve_stopwatch_.start();
             sparse_solver_.compute(H);
             if (sparse_solver_.info() != Eigen::Success) {
+                solve_stopwatch_.stop();
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
@@ -373,6 +375,7 @@ namespace factorama
             double max_diag = D.maxCoeff();
 
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
+                solve_stopwatch_.stop();
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
@@ -387,6 +390,7 @@ namespace factorama
 
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
+                solve_stopwatch_.stop();
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
@@ -450,6 +454,7 @@ namespace factorama
                 for (size_t i = 0; i < variables.size(); ++i) {
                     variables[i]->set_value_from_vector(original_values[i]);
                 }
+                update_vars_stopwatch_.stop();
 
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
                 current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
@@ -468,7 +473,6 @@ namespace factorama
                     }
                     break;
                 }
-                update_vars_stopwatch_.stop();
             }
         }
 
-- 
2.43.0


From 134608f10460b13bb75b1679f04f5bebc09154e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 17/41] fix: an exception while evaluating an LM trial step
 left the variables at the rejected values

---
 src/factorama/sparse_optimizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 15e39a5..9cc9f73 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -433,7 +433,15 @@ namespace factorama
 
             // Step 5: Evaluate new cost
             residual_stopwatch_.start();
-            graph_->compute_full_residual_vector(residual2_);
+            try {
+                graph_->compute_full_residual_vector(residual2_);
+            } catch (...) {
+                // The trial step was not accepted: leave the variables where they were
+                for (size_t i = 0; i < variables.size(); ++i) {
+                    variables[i]->set_value_from_vector(original_values[i]);
+                }
+                throw;
+            }
             residual_stopwatch_.stop();
             new_cost = 0.5 * residual2_.squaredNorm();
 
-- 
2.43.0


From e44e51de217e03e2bd7e48f355d18c87f109a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 18/41] fix: an optimisation that ended with a residual of NaN
 was reported as success

---
 src/factorama/sparse_optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 9cc9f73..39cebe7 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 
 namespace factorama
 {
@@ -275,6 +276,12 @@ namespace factorama
             current_stats_.status = OptimizerStatus::SUCCESS;
         }
 
+        // A residual that is not finite is never a success
+        if (!std::isfinite(current_stats_.residual_norm)) {
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+        }
+
         if (settings_.verbose) {
             std::vector<std::string> timer_names = {"residual", "jacobian", "hessian", "solve", "update_vars"};
 
-- 
2.43.0


From bbd1527ada6779d33cc7fd7b2211c573ef591c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 19/41] fix: the Jacobian stopwatch was never reset between
 optimisations

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 39cebe7..b9d5c32 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -157,7 +157,7 @@ namespace factorama
         current_stats_.current_iteration = 0;
 
         residual_stopwatch_.reset();
-        residual_stopwatch_.reset();
+        jacobian_stopwatch_.reset();
         hessian_stopwatch_.reset();
         solve_stopwatch_.reset();
         update_vars_stopwatch_.reset();
-- 
2.43.0


From 0d45922bc3b3e99ac010d79606ec30b6237980d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 20/41] fix: starting an optimisation kept the covariance of
 the previous one valid

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index b9d5c32..f93701c 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -150,6 +150,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // Nothing of an earlier optimization is used once a new one has begun
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
-- 
2.43.0


From 54944f80886e50f1ae956ddc489a592ce5390001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 21/41] fix: a covariance from before the graph was finalised
 again was used with the new placement, out of bounds

---
 src/factorama/factor_graph.cpp     | 1 +
 src/factorama/factor_graph.hpp     | 7 +++++++
 src/factorama/sparse_optimizer.cpp | 9 ++++++++-
 src/factorama/sparse_optimizer.hpp | 1 +
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f81e53d..b4cded4 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -252,6 +252,7 @@ namespace factorama
     {
         // Until this succeeds the graph has no structure, and nothing cached for the previous one may be used
         structure_finalized_ = false;
+        structure_revision_++;
         jacobian_valid_ = false;
         residual_valid_ = false;
         sparse_jacobian_initialized_ = false;
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 02b37ef..1f9148c 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -68,6 +68,12 @@ namespace factorama
          */
         void finalize_structure();
 
+        /**
+         * @brief Number of times finalize_structure() was called
+         * Placements and Jacobians obtained at another revision do not belong to the present structure
+         */
+        size_t structure_revision() const { return structure_revision_; }
+
         /**
          * @brief Compute residual vector for all factors
          * @return Reference to computed residual vector
@@ -224,6 +230,7 @@ namespace factorama
 
         // Structure bookkeeping
         bool structure_finalized_ = false;
+        size_t structure_revision_ = 0;
         std::unordered_map<int, VariablePlacement> variable_placement_;
         std::unordered_map<int, FactorPlacement> factor_placement_;
 
diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index f93701c..2a18b5d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -317,6 +317,7 @@ namespace factorama
             std::cout << "===============================\n";
         }
 
+        optimized_structure_revision_ = graph_->structure_revision();
         optimization_complete_ = true;
     }
 
@@ -554,6 +555,12 @@ namespace factorama
     {
         // Assume the graph has already been optimized - estimate the covariance of each variable
 
+        if (optimization_complete_ && graph_->structure_revision() != optimized_structure_revision_) {
+            // the graph was finalized again since: the optimization was that of another structure
+            optimization_complete_ = false;
+            cached_hessian_valid_for_covariance_est_ = false;
+        }
+
         if (cached_hessian_valid_for_covariance_est_) {
             // early end, if it was already valid
             return;
@@ -626,7 +633,7 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
-        if (!optimization_complete_) {
+        if (!optimization_complete_ || graph_->structure_revision() != optimized_structure_revision_) {
             if (settings_.verbose) {
                 std::cerr << "optimization was not complete prior to est" << std::endl;
             }
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index 93dee55..784601c 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -152,6 +152,7 @@ namespace factorama
         std::shared_ptr<FactorGraph> graph_;
 
         bool optimization_complete_ = false;
+        size_t optimized_structure_revision_ = 0; // structure of the graph that was optimized
 
         // ---- Cached Jacobian Pattern ----
         bool jacobian_pattern_initialized_ = false;
-- 
2.43.0


From 61478e93f9526fd5134857772b5c4de4e200b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 22/41] fix: the covariance of a variable that was constant in
 the optimisation was reported valid and empty

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 2a18b5d..57adf8f 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -652,7 +652,7 @@ namespace factorama
         bool var_valid;
         auto placement = graph_->variable_placement(var_id, var_valid);
 
-        if (!var_valid) {
+        if (!var_valid || placement.dim != variable->size()) {
             if (settings_.verbose) {
                 std::cerr << "variable placement not found" << std::endl;
             }
-- 
2.43.0


From 3beb75d374168b6e40b74c03756b7c55c5d0242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 23/41] fix: Python took ownership of variables the graph owns,
 and arrays outlived their owner

---
 .../python/factorama/_factorama.cpp           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..26136ca 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::reference_internal)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -94,7 +94,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference_internal)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference_internal);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference_internal)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference_internal)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference_internal)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -179,7 +179,7 @@ PYBIND11_MODULE(_factorama, m) {
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
@@ -322,21 +322,21 @@ PYBIND11_MODULE(_factorama, m) {
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
              py::return_value_policy::reference)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", &factorama::FactorGraph::get_variable, py::return_value_policy::reference_internal)
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
         .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -362,7 +362,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 9d19ad18aaa45febfc561329735598188042be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 24/41] fix: a factor built in Python did not keep its
 variables alive, nor a graph its factors, nor an optimiser its graph

---
 .../python/factorama/_factorama.cpp           | 61 ++++++++++++-------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 26136ca..dd17f20 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -163,7 +163,8 @@ PYBIND11_MODULE(_factorama, m) {
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
 
     py::class_<factorama::GenericPriorFactor, 
@@ -171,78 +172,92 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
-             py::arg("sigma") = 1.0, py::arg("local_frame") = false);
+             py::arg("sigma") = 1.0, py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
+             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
+             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
-             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
+             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
-             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
+             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
@@ -250,7 +265,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a RangeBearingFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
-             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
+             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("range_obs", &factorama::RangeBearingFactor2D::range_obs)
         .def("bearing_angle_obs", &factorama::RangeBearingFactor2D::bearing_angle_obs);
 
@@ -258,13 +274,15 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
-             py::arg("position_sigma"), py::arg("angle_sigma"));
+             py::arg("position_sigma"), py::arg("angle_sigma"),
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
-             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
+             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::CoordinateTransformFactor, std::shared_ptr<factorama::CoordinateTransformFactor>, factorama::Factor>(m, "CoordinateTransformFactor")
         .def(py::init<int, factorama::RotationVariable*, factorama::GenericVariable*,
@@ -273,7 +291,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a CoordinateTransformFactor",
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
-             py::arg("sigma") = 1.0)
+             py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>())
         .def("weight", &factorama::CoordinateTransformFactor::weight);
 
     // Optimizer enums and settings
@@ -318,7 +337,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
         .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -352,7 +371,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
-- 
2.43.0


From 8ae60e7b395717082ab02e3047ef9058f1748c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 25/41] fix: None was accepted where a factor needs a variable,
 and crashed when the factor was used

---
 .../python/factorama/_factorama.cpp           | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index dd17f20..e72e074 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -162,7 +162,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
@@ -172,14 +172,14 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("variable").none(false), py::arg("prior_value"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("inverse_range_var").none(false), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference_internal);
@@ -187,75 +187,75 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("var_a").none(false), py::arg("var_b").none(false), py::arg("measured_diff").none(false), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("pose").none(false), py::arg("pos_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("pose").none(false), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_diff").none(false),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0,
+             py::arg("id"), py::arg("pose1").none(false), py::arg("pose2").none(false), py::arg("calibration_rotation_12").none(false), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("rotation").none(false), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
-             py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
+             py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
-             py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
+             py::arg("id"), py::arg("plane").none(false), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
@@ -263,7 +263,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
              "Create a RangeBearingFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
              py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
@@ -273,14 +273,14 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"),
              py::keep_alive<1, 3>());
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_between_variable").none(false),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
@@ -289,8 +289,8 @@ PYBIND11_MODULE(_factorama, m) {
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
              "Create a CoordinateTransformFactor",
-             py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
-             py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
+             py::arg("id"), py::arg("rot_AB").none(false), py::arg("B_origin_A").none(false),
+             py::arg("scale_AB").none(false), py::arg("lm_A").none(false), py::arg("lm_B").none(false),
              py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>())
         .def("weight", &factorama::CoordinateTransformFactor::weight);
-- 
2.43.0


From d93a65abac4518452587cc4fd9bce642d26721c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 26/41] fix: RotationVariable::dcm_AB() handed out a writable
 reference, so its rotation and value could disagree

---
 src/factorama/rotation_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 2477479..46bf83c 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -58,7 +58,7 @@ namespace factorama
             value_ = LogMapSO3(dcm_AB_);
         }
 
-        Eigen::Matrix3d& dcm_AB() { return dcm_AB_; }
+        const Eigen::Matrix3d& dcm_AB() const { return dcm_AB_; }
 
         void print() const override
         {
-- 
2.43.0


From 2dda6c516a4526a3e318e0b99b7d322343122880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 27/41] fix: plotting a graph with a BearingProjectionFactor2D
 read a measurement the class did not provide

---
 python_bindings/python/factorama/_factorama.cpp | 3 ++-
 python_bindings/python/factorama/_factorama.pyi | 2 ++
 src/factorama/bearing_projection_factor_2d.hpp  | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index e72e074..d432bfc 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -232,7 +232,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
-             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
+        .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index e278786..1c14fc4 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -26,6 +26,8 @@ class BearingProjectionFactor2D(Factor):
         """
         Create a BearingProjectionFactor2D
         """
+    def bearing_C_obs(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[3, 1]"]:
+        ...
 class CoordinateTransformFactor(Factor):
     def __init__(self, id: typing.SupportsInt, rot_AB: RotationVariable, B_origin_A: GenericVariable, scale_AB: GenericVariable, lm_A: LandmarkVariable, lm_B: LandmarkVariable, sigma: typing.SupportsFloat = 1.0) -> None:
         """
diff --git a/src/factorama/bearing_projection_factor_2d.hpp b/src/factorama/bearing_projection_factor_2d.hpp
index 25c0250..a4caf9b 100644
--- a/src/factorama/bearing_projection_factor_2d.hpp
+++ b/src/factorama/bearing_projection_factor_2d.hpp
@@ -53,6 +53,8 @@ namespace factorama
 
         double weight() const { return weight_; }
 
+        Eigen::Vector3d bearing_C_obs() const { return bearing_C_observed_; }
+
         std::string name() const override
         {
             return "BearingProjection2D_" + std::to_string(id()) + "(" + pose_->name() + "," + landmark_->name() + ")";
-- 
2.43.0


From d9b11cbc4456cad35d51f00561fc658021c793a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 28/41] fix: the stub of PlotFactorGraph lacked two of its
 parameters

---
 python_bindings/python/factorama/__init__.pyi | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/__init__.pyi b/python_bindings/python/factorama/__init__.pyi
index c1d1b18..cb9180c 100644
--- a/python_bindings/python/factorama/__init__.pyi
+++ b/python_bindings/python/factorama/__init__.pyi
@@ -50,7 +50,9 @@ def PlotFactorGraph(
     axis_handle: Optional[Any] = None,
     plot_covariance: bool = False,
     optimizer: Optional[SparseOptimizer] = None,
-    plot_3d: bool = True
+    plot_3d: bool = True,
+    plot_measurements: bool = True,
+    plot_between_factors: bool = True
 ) -> Any: ...
 
 __all__: list[str] = ['BearingObservationFactor', 'BearingObservationFactor2D', 'BearingProjectionFactor2D', 'CoordinateTransformFactor', 'ExpMapSO3', 'Factor', 'FactorGraph', 'FactorType', 'GenericBetweenFactor', 'GenericPriorFactor', 'GenericVariable', 'InverseRangeBearingFactor', 'InverseRangeVariable', 'LandmarkVariable', 'LinearVelocityFactor', 'LogMapSO3', 'OptimizerMethod', 'OptimizerSettings', 'OptimizerStats', 'OptimizerStatus', 'PlaneFactor', 'PlanePriorFactor', 'PlaneVariable', 'PlotFactorGraph', 'Pose2DBetweenFactor', 'Pose2DPriorFactor', 'Pose2DVariable', 'PoseOrientationBetweenFactor', 'PoseOrientationPriorFactor', 'PosePositionBetweenFactor', 'PosePositionPriorFactor', 'PoseVariable', 'RangeBearingFactor2D', 'RotationPriorFactor', 'RotationVariable', 'SparseOptimizer', 'Variable', 'VariableType']
-- 
2.43.0


From d06b34339454e082aa125512d80c9536f1c04935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 29/41] fix: BearingObservationFactor2D accepted landmarks of
 the wrong size and read past their value

---
 src/factorama/bearing_observation_factor_2d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/bearing_observation_factor_2d.cpp b/src/factorama/bearing_observation_factor_2d.cpp
index c5af55e..8d97888 100644
--- a/src/factorama/bearing_observation_factor_2d.cpp
+++ b/src/factorama/bearing_observation_factor_2d.cpp
@@ -14,7 +14,9 @@ namespace factorama
         id_ = id;
         assert(pose_var != nullptr && "pose_var cannot be nullptr");
         assert(landmark_var != nullptr && "landmark_var cannot be nullptr");
-        assert(landmark_var->size() == 2 && "landmark_var must be 2D");
+        if (landmark_var->size() != 2) {
+            throw std::runtime_error("BearingObservationFactor2D: landmark_var must be 2D");
+        }
         assert(angle_sigma > 0.0 && "angle_sigma must be greater than zero");
     }
 
-- 
2.43.0


From 8863f957c844bc3229cc5f79c83e27ed0ce39765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 30/41] fix: RangeBearingFactor2D accepted landmarks of the
 wrong size and read past their value

---
 src/factorama/range_bearing_factor_2d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/range_bearing_factor_2d.cpp b/src/factorama/range_bearing_factor_2d.cpp
index f27d1e4..c4a38c7 100644
--- a/src/factorama/range_bearing_factor_2d.cpp
+++ b/src/factorama/range_bearing_factor_2d.cpp
@@ -17,7 +17,9 @@ namespace factorama
         id_ = id;
         assert(pose_var != nullptr && "pose_var cannot be nullptr");
         assert(landmark_var != nullptr && "landmark_var cannot be nullptr");
-        assert(landmark_var->size() == 2 && "landmark_var must be 2D");
+        if (landmark_var->size() != 2) {
+            throw std::runtime_error("RangeBearingFactor2D: landmark_var must be 2D");
+        }
         assert(range_obs >= 0.0 && "range_obs must be non-negative");
         assert(range_sigma > 0.0 && "range_sigma must be greater than zero");
         assert(bearing_sigma > 0.0 && "bearing_sigma must be greater than zero");
-- 
2.43.0


From eb7a0e9a3ab06e077249a444c2b326ae74227f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 31/41] fix: Pose2DBetweenFactor accepted a measurement
 variable of the wrong size and read past its value

---
 src/factorama/pose_2d_between_factor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factorama/pose_2d_between_factor.cpp b/src/factorama/pose_2d_between_factor.cpp
index 8356856..342a40e 100644
--- a/src/factorama/pose_2d_between_factor.cpp
+++ b/src/factorama/pose_2d_between_factor.cpp
@@ -1,5 +1,6 @@
 #include "pose_2d_between_factor.hpp"
 #include <cmath>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,8 +18,9 @@ namespace factorama
         assert(pose_a != nullptr && "pose_a cannot be nullptr");
         assert(pose_b != nullptr && "pose_b cannot be nullptr");
         assert(measured_between_variable != nullptr && "measured_between_variable cannot be nullptr");
-        assert(measured_between_variable->size() == 3 &&
-               "measured_between_variable must be 3-dimensional [dx, dy, dtheta]");
+        if (measured_between_variable->size() != 3) {
+            throw std::runtime_error("Pose2DBetweenFactor: measured_between_variable must be 3-dimensional [dx, dy, dtheta]");
+        }
         assert(position_sigma > 0.0 && "position_sigma must be greater than zero");
         assert(angle_sigma > 0.0 && "angle_sigma must be greater than zero");
     }
-- 
2.43.0


From 6eb9dfa50157219fc572ab13f3888d2350f400f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 32/41] fix: LinearVelocityFactor accepted variables its
 velocity does not fit into and read past their values

---
 src/factorama/linear_velocity_factor.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/factorama/linear_velocity_factor.cpp b/src/factorama/linear_velocity_factor.cpp
index bbf17d2..ee82fb5 100644
--- a/src/factorama/linear_velocity_factor.cpp
+++ b/src/factorama/linear_velocity_factor.cpp
@@ -1,4 +1,5 @@
 #include "factorama/linear_velocity_factor.hpp"
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,10 +18,13 @@ namespace factorama
         assert(var_1 != nullptr && "var_1 cannot be nullptr");
         assert(var_2 != nullptr && "var_2 cannot be nullptr");
         assert(velocity_variable != nullptr && "velocity_variable cannot be nullptr");
-        assert(var_1->size() == var_2->size() && "LinearVelocityFactor: variable size mismatch");
+        if (var_1->size() != var_2->size()) {
+            throw std::runtime_error("LinearVelocityFactor: variable size mismatch");
+        }
 
-        assert(var_1_->size() >= velocity_variable->size() &&
-               "LinearVelocityFactor: velocity size must be <= the variable sizes");
+        if (initial_index < 0 || initial_index + velocity_variable->size() > var_1->size()) {
+            throw std::runtime_error("LinearVelocityFactor: the velocity must fit into the variables at initial_index");
+        }
 
         assert(sigma > 0.0 && "LinearVelocityFactor: sigma must be greater than zero");
     }
-- 
2.43.0


From 2ba7016116cc426b2294d98206bfbbf4a627afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 33/41] fix: GenericBetweenFactor accepted variables of
 different sizes and read past the shorter ones

---
 src/factorama/generic_between_factor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/factorama/generic_between_factor.cpp b/src/factorama/generic_between_factor.cpp
index 6420c79..994d181 100644
--- a/src/factorama/generic_between_factor.cpp
+++ b/src/factorama/generic_between_factor.cpp
@@ -1,5 +1,6 @@
 #include "generic_between_factor.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -15,9 +16,13 @@ namespace factorama
         assert(var_a != nullptr && "var_a cannot be nullptr");
         assert(var_b != nullptr && "var_b cannot be nullptr");
         assert(measured_diff != nullptr && "measured_diff cannot be nullptr");
-        assert(var_a_->size() == var_b_->size() && "BetweenFactor: variable size mismatch");
+        if (var_a_->size() != var_b_->size()) {
+            throw std::runtime_error("BetweenFactor: variable size mismatch");
+        }
 
-        assert(var_a_->size() == measured_diff_->size() && "BetweenFactor: measured_diff size mismatch");
+        if (var_a_->size() != measured_diff_->size()) {
+            throw std::runtime_error("BetweenFactor: measured_diff size mismatch");
+        }
 
         assert(sigma > 0.0 && "BetweenFactor: sigma must be greater than zero");
 
-- 
2.43.0


From 8d1bbf6b25be100cda71a6ea9cdeff0516c3c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 34/41] fix: PlaneFactor accepted point variables that are not
 3D and read past their value

---
 src/factorama/plane_factor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index 65108f6..10eebb7 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -1,5 +1,6 @@
 #include "plane_factor.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -17,7 +18,9 @@ namespace factorama
         id_ = id;
         assert(point_var != nullptr && "point_var cannot be nullptr");
         assert(plane_var != nullptr && "plane_var cannot be nullptr");
-        assert(point_var_->size() == 3 && "PlaneFactor: point variable must be 3D");
+        if (point_var_->size() != 3) {
+            throw std::runtime_error("PlaneFactor: point variable must be 3D");
+        }
         assert(sigma > 0.0 && "PlaneFactor: sigma must be greater than zero");
     }
 
@@ -33,7 +36,9 @@ namespace factorama
         id_ = id;
         assert(point_var != nullptr && "point_var cannot be nullptr");
         assert(plane_var != nullptr && "plane_var cannot be nullptr");
-        assert(point_var_->size() == 3 && "PlaneFactor: point variable must be 3D");
+        if (point_var_->size() != 3) {
+            throw std::runtime_error("PlaneFactor: point variable must be 3D");
+        }
         assert(sigma > 0.0 && "PlaneFactor: sigma must be greater than zero");
     }
 
-- 
2.43.0


From c37db7334f44df26f359d22c18b2410edf556959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 35/41] fix: CoordinateTransformFactor accepted an origin or
 scale of the wrong size and read past its value

---
 src/factorama/coordinate_transform_factor.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index 875ca08..533ba00 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -8,6 +8,7 @@
 #include "factorama/random_utils.hpp"
 #include <Eigen/Dense>
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -54,8 +55,12 @@ namespace factorama
             assert(scale_AB != nullptr && "scale_AB cannot be nullptr");
             assert(lm_A != nullptr && "lm_A cannot be nullptr");
             assert(lm_B != nullptr && "lm_B cannot be nullptr");
-            assert(B_origin_A->size() == 3 && "B_origin_A must be 3D");
-            assert(scale_AB->size() == 1 && "scale_AB must be scalar (1D)");
+            if (B_origin_A->size() != 3) {
+                throw std::runtime_error("CoordinateTransformFactor: B_origin_A must be 3D");
+            }
+            if (scale_AB->size() != 1) {
+                throw std::runtime_error("CoordinateTransformFactor: scale_AB must be scalar (1D)");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
         }
 
-- 
2.43.0


From 8eae3c941ef5da39ba0fbe031c72c270c152990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 36/41] fix: PosePositionBetweenFactor accepted a measurement
 variable of the wrong size and read past its value

---
 src/factorama/pose_between_factors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/factorama/pose_between_factors.hpp b/src/factorama/pose_between_factors.hpp
index 59c0cb6..400a572 100644
--- a/src/factorama/pose_between_factors.hpp
+++ b/src/factorama/pose_between_factors.hpp
@@ -4,6 +4,7 @@
 #include "factorama/pose_variable.hpp"
 #include "factorama/random_utils.hpp"
 #include "factorama/rotation_variable.hpp"
+#include <stdexcept>
 
 namespace factorama
 {
@@ -46,7 +47,9 @@ namespace factorama
             assert(pose_a != nullptr && "pose_a cannot be nullptr");
             assert(pose_b != nullptr && "pose_b cannot be nullptr");
             assert(measured_diff != nullptr && "measured_diff cannot be nullptr");
-            assert(measured_diff_->size() == 3 && "PosePositionBetweenFactor: measured_diff must be 3D");
+            if (measured_diff_->size() != 3) {
+                throw std::runtime_error("PosePositionBetweenFactor: measured_diff must be 3D");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
         }
 
-- 
2.43.0


From 8a4a67f25b76ff3efc1d8b0edd6220c72165facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 37/41] fix: GenericPriorFactor accepted a prior whose size is
 not that of its variable and read past it

---
 src/factorama/generic_prior_factor.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 6ab81d6..57dfdba 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "factorama/base_types.hpp"
 #include <cassert>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -34,7 +35,9 @@ namespace factorama
         {
             id_ = id;
             assert(variable != nullptr && "variable cannot be nullptr");
-            assert(prior_.size() == variable_->size() && "Prior size must match variable size");
+            if (prior_.size() != variable_->size()) {
+                throw std::runtime_error("GenericPriorFactor: prior size must match variable size");
+            }
             assert(sigma > 0.0 && "Sigma must be greater than zero");
             size_ = prior_.size();
         }
-- 
2.43.0


From 2cc861c4a9043f5b826d3bb5b7cc7ba5cde6b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:11 +0000
Subject: [PATCH 38/41] fix: a residual evaluation that threw left a
 half-overwritten residual marked valid

---
 src/factorama/factor_graph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index b4cded4..9647486 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -142,6 +142,7 @@ namespace factorama
         if (!residual_valid_) {
             cached_residual_ = Eigen::VectorXd::Zero(num_residuals_);
         }
+        residual_valid_ = false; // until every factor has been evaluated
 
         compute_full_residual_vector(cached_residual_);
 
-- 
2.43.0


From ade6f5d09130d6dc60fe3f0a7d48b4faff9d28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:11 +0000
Subject: [PATCH 39/41] fix: a Jacobian evaluation that threw left a
 half-overwritten Jacobian marked valid

---
 src/factorama/factor_graph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 9647486..085f45f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -179,6 +179,7 @@ namespace factorama
         if (!jacobian_valid_) {
             cached_jacobian_ = Eigen::MatrixXd::Zero(num_residuals_, num_values_);
         }
+        jacobian_valid_ = false; // until every factor has been evaluated
 
         for (const auto& it : factor_placement_) {
             auto factor_placement = it.second;
-- 
2.43.0


From 5275aae72c508ffcab595c2635d20b3bfe1bba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:11 +0000
Subject: [PATCH 40/41] fix: detailed_factor_test passed Jacobians containing
 NaN or infinity

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 085f45f..9004086 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -664,7 +664,7 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From 10ea6133ff30c91b3926993d4c3a7fd0e372a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 41/41] fix: ComputeNumericalJacobians left a variable
 perturbed when the factor threw

---
 src/factorama/numerical_jacobian.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/factorama/numerical_jacobian.hpp b/src/factorama/numerical_jacobian.hpp
index 524e913..0a982ba 100644
--- a/src/factorama/numerical_jacobian.hpp
+++ b/src/factorama/numerical_jacobian.hpp
@@ -58,16 +58,23 @@ namespace factorama
                     Eigen::VectorXd dx = Eigen::VectorXd::Zero(var_dim);
                     dx[k] = epsilon;
 
-                    // Apply +epsilon
-                    var->apply_increment(dx);
-                    Eigen::VectorXd res_plus = factor.compute_residual();
+                    Eigen::VectorXd res_plus, res_minus;
+                    try {
+                        // Apply +epsilon
+                        var->apply_increment(dx);
+                        res_plus = factor.compute_residual();
 
-                    // Reset
-                    var->set_value_from_vector(x0);
+                        // Reset
+                        var->set_value_from_vector(x0);
 
-                    // Apply -epsilon
-                    var->apply_increment(-dx);
-                    Eigen::VectorXd res_minus = factor.compute_residual();
+                        // Apply -epsilon
+                        var->apply_increment(-dx);
+                        res_minus = factor.compute_residual();
+                    } catch (...) {
+                        // The variable must not stay perturbed
+                        var->set_value_from_vector(x0);
+                        throw;
+                    }
 
                     // Reset again
                     var->set_value_from_vector(x0);
-- 
2.43.0

