From a5139de279a405bd501ac3e2c404648769e76a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 01/48] fix: make TaskIB usable: add the missing ATb
 computation

ConstraintsIB called getATb() / addATb() which do not exist for constraints
with a right hand side, so any class derived from TaskIB failed to compile.
---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From ea9076d6c473c82928a4ac95fed2404f567213ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:03 +0000
Subject: [PATCH 02/48] fix: do not keep constraints of a previous QP when
 there is one level

getQPProblem() reinitialized the constraints only for two-level hierarchies,
so a QP object reused for a single level problem kept stale constraints.
---
 core/include/humoto/hierarchy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..218c4c7 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,11 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // drop constraints, which could have been left by another hierarchy
+                    qp_problem.initializeConstraints(HierarchyLevel(), sol_structure);
+                }
             }
     };
 }
-- 
2.43.0


From 5965c9ed40c3d57808ff25a28081aca3bc9ec8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 03/48] fix: TaskZeroVariables takes a changed gain into
 account

---
 core/include/humoto/task_generic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..07b82f4 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -91,7 +91,8 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_)
+                        || ((getIGains().size() > 0) && (getIGains()[0] != getGain())) )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
-- 
2.43.0


From 0e42062d21b81173059d1b8e763bbcc06b6c50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 04/48] fix: output of the first step with several groups of
 controls in condenseOutput()

---
 core/include/humoto/control_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..a4a9aa6 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,7 +167,7 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
+                    Ou[i](0, 0) = E[0].block( 0,
                                                   control_offsets[i],
                                                   t_num_outputs,
                                                   Uu[i].getBlockColsNum());
-- 
2.43.0


From 9c52898c293fb991b5d908fe504dabdbdf7ebac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 05/48] fix: cubic polynomial reaches the requested final
 position and velocity

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From 593b0f56b31f746e8274155dd653af051d3178c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 06/48] fix: vertical velocity and acceleration of the foot
 trajectory match its position

---
 core/include/walking/foot_trajectory.h | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..7df87a7 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,       b(2),               bdot(2)/2);
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2, a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,              b.position_(2),               b.velocity_(2)/2);
                 }
 
 
@@ -127,13 +127,28 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each of the two polynomials spans one half of the time
+                    // interval, derivatives must be scaled accordingly
+                    double scale = 1.0;
+                    switch (trajectory_type)
+                    {
+                        case rigidbody::TrajectoryEvaluationType::VELOCITY:
+                            scale = 2.0;
+                            break;
+                        case rigidbody::TrajectoryEvaluationType::ACCELERATION:
+                            scale = 4.0;
+                            break;
+                        default:
+                            break;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From 28d6ab50945ae8dae93515a501a8574a04d214db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:46 +0000
Subject: [PATCH 07/48] fix: no steps remain in the stance FSM when the first
 single support is undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..89c0237 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From 9429288d73bbb37e1d8dca19d2c6cfb971946d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:17 +0000
Subject: [PATCH 08/48] fix: preview of zero duration does not access an empty
 vector of stances

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 89c0237..4939a95 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -357,7 +357,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (!stance_types.empty()) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From 232db56fc914642da5738372509ac70ebd76a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 09/48] fix: TDS is not reported as started when the FSM
 remains in DS

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 4939a95..4c4a478 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -494,6 +494,7 @@ namespace humoto
 
                     if(ss_states_to_termination_ == 0)
                     {
+                        is_tds_started_ = false;
                         current_stance_.type_        = StanceType::DS;
                         current_stance_.duration_ms_ = sfsm_params_.getDurationMs(StanceType::DS);
                         current_time_ms_ = 0;
-- 
2.43.0


From e246122f155b5f45209c8364bde812b7b45d6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:23 +0000
Subject: [PATCH 10/48] fix: do not write past the end of R_ when previewed
 stances lie beyond the horizon

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..cf5d98e 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,7 +35,7 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    for(std::size_t i=0; (i < (preview_horizon_.walk_states_.size() - 1)) && (index < preview_horizon_.getNumberOfVariableSteps()); ++i)
                     {
                         if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
                         {
-- 
2.43.0


From 2adf8c46d75b73acbb763a8f41717550df698be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:50 +0000
Subject: [PATCH 11/48] fix: wpg04 model can be updated more than once during a
 transitional double support

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..15317de 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -188,6 +188,7 @@ namespace humoto
                                     state_.feet_.copyLeft(state.feet_);
                                     break;
 
+                                case humoto::walking::StanceType::TDS:
                                 case humoto::walking::StanceType::DS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
-- 
2.43.0


From b4f577296da4b3ba9487ac5583363ed192c48409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:46 +0000
Subject: [PATCH 12/48] fix: pepper_mpc: state within an interval is computed
 with the controls of this interval

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 98dac52a2a0e1fba893c272ae0680f93a2f49551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:19 +0000
Subject: [PATCH 13/48] fix: pepper_mpc: heights are not swapped on
 construction of a model state

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From e81ae70dfe84bd86c8f0b40a4aff387d722144c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:26 +0000
Subject: [PATCH 14/48] fix: pepper_mpc: predicted model states have the masses
 of the model

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..3797755 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -66,6 +66,8 @@ namespace humoto
                                         base_height,
                                         body_height,
                                         theta);
+                    model_state.base_mass_ = preview_horizon_.intervals_[0].base_mass_;
+                    model_state.body_mass_ = preview_horizon_.intervals_[0].body_mass_;
 
 
                     return(model_state);
@@ -323,6 +325,8 @@ namespace humoto
                                         base_height,
                                         body_height,
                                         theta);
+                    model_state.base_mass_ = preview_horizon_.intervals_[interval_index].base_mass_;
+                    model_state.body_mass_ = preview_horizon_.intervals_[interval_index].body_mass_;
 
                     return (model_state);
                 }
-- 
2.43.0


From 190b535968bb6c519a34ac7d4fe061d67fa19a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:06 +0000
Subject: [PATCH 15/48] fix: active set can be shifted by its whole size
 (preview horizon of one interval)

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 78ee8a030804286fb092becaa1091d8c5351bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:28 +0000
Subject: [PATCH 16/48] fix: configuration writers stored matrices column by
 column while readers expect rows

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..9125bec 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // the data is stored row by row
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..c56275c 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // the data is stored row by row
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From 1d7403ece0b4c0bf725f3ab28356bf67e7562e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 17/48] fix: msgpack reader found only the first section of a
 root map

---
 .../config_msgpack/interface/config_msgpack/reader.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..943fc0b 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -122,12 +122,15 @@ namespace humoto
                             {
                                 if (::msgpack::type::MAP == handles_[i]->get().type)
                                 {
-                                    if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
+                                    for (std::size_t j = 0; j < handles_[i]->get().via.map.size; ++j)
                                     {
-                                        if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[0].val.type)
+                                        if (child_name == handles_[i]->get().via.map.ptr[j].key.as<std::string>())
                                         {
-                                            node_stack_.push( &(handles_[i]->get().via.map.ptr[0].val) );
-                                            return(true);
+                                            if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[j].val.type)
+                                            {
+                                                node_stack_.push( &(handles_[i]->get().via.map.ptr[j].val) );
+                                                return(true);
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 5ca5071b751bd4eeb9596618bfc8941d43a15925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:41 +0000
Subject: [PATCH 18/48] fix: unknown classes of tasks in a configuration file
 crashed instead of throwing

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..08bde1d 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 8455cadf6b9ad132109b4aa3fe17f184d4853976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 19/48] fix: KKT solver defaults did not include those of the
 base class

---
 core/include/kktsolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..b91320b 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From cfd5c2e9e5edb51d6059d3a5d1dbfe0478956c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:25 +0000
Subject: [PATCH 20/48] fix: msgpack reader ignored nested sections which are
 not maps

---
 .../interface/config_msgpack/reader.h              | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 943fc0b..beba48c 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -138,15 +138,15 @@ namespace humoto
                         }
                         else
                         {
-                            if (::msgpack::type::MAP == getCurrentNode()->type)
+                            HUMOTO_ASSERT(  (::msgpack::type::MAP == getCurrentNode()->type),
+                                            "[Config] Entry is not a map.");
+
+                            for (std::size_t i = 0; i < getCurrentNode()->via.map.size; ++i)
                             {
-                                for (std::size_t i = 0; i < getCurrentNode()->via.map.size; ++i)
+                                if (child_name == getCurrentNode()->via.map.ptr[i].key.as<std::string>())
                                 {
-                                    if (child_name == getCurrentNode()->via.map.ptr[i].key.as<std::string>())
-                                    {
-                                        node_stack_.push( &(getCurrentNode()->via.map.ptr[i].val) );
-                                        return(true);
-                                    }
+                                    node_stack_.push( &(getCurrentNode()->via.map.ptr[i].val) );
+                                    return(true);
                                 }
                             }
                         }
-- 
2.43.0


From 7010614b61c1442ad8562a03de8ae6cec7573cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:40 +0000
Subject: [PATCH 21/48] fix: blocks of mapped matrices referred to a temporary
 copy

---
 core/include/eigentools/blockmatrix_base.h | 34 +++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_base.h b/core/include/eigentools/blockmatrix_base.h
index 9ef7792..0f359cc 100644
--- a/core/include/eigentools/blockmatrix_base.h
+++ b/core/include/eigentools/blockmatrix_base.h
@@ -65,6 +65,32 @@ namespace etools
 
 
 
+    /**
+     * @brief Type of the matrix which is accessed by blocks
+     *
+     * @tparam t_Matrix matrix type (decayed)
+     */
+    template<class t_Matrix>   struct BlockSource
+    {
+        typedef EIGENTOOLS_DYNAMIC_MATRIX( typename t_Matrix::Scalar ) Type;
+    };
+
+    /**
+     * @brief Type of the matrix which is accessed by blocks (blocks of maps
+     * must refer to maps, otherwise they would refer to temporary copies)
+     *
+     * @tparam t_Matrix     Eigen parameter
+     * @tparam t_alignment  Eigen parameter
+     * @tparam t_Stride     Eigen parameter
+     */
+    template<class t_Matrix, int t_alignment, class t_Stride>
+        struct BlockSource< Eigen::Map<t_Matrix, t_alignment, t_Stride> >
+    {
+        typedef Eigen::Map<t_Matrix, t_alignment, t_Stride> Type;
+    };
+
+
+
     /**
      * @brief Matrix block size type
      */
@@ -114,10 +140,10 @@ namespace etools
             typedef typename DecayedRawMatrix::Scalar           Scalar;
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block< EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > DynamicMatrixBlock;
+            typedef Eigen::Block< typename BlockSource<DecayedRawMatrix>::Type > DynamicMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > ConstDynamicMatrixBlock;
+            typedef const Eigen::Block< const typename BlockSource<DecayedRawMatrix>::Type > ConstDynamicMatrixBlock;
 
 
         public:
@@ -550,12 +576,12 @@ namespace etools
 
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block<   EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef Eigen::Block<   typename BlockSource<DecayedRawMatrix>::Type,
                                     t_block_rows_num,
                                     t_block_cols_num> StaticMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef const Eigen::Block< const typename BlockSource<DecayedRawMatrix>::Type,
                                         t_block_rows_num,
                                         t_block_cols_num> ConstStaticMatrixBlock;
 
-- 
2.43.0


From b98440bd6bffe3084698d56fd12766251852b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:10 +0000
Subject: [PATCH 22/48] fix: selectRowInBlocks used the number of rows of a
 block as the number of columns

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From f255299d7355a62536dcd84e30eab82baa222d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 23/48] fix: selectRows wrapped around on matrices without rows

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..7fbb7cf 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -766,7 +766,7 @@ namespace etools
     {
         return (EIGENTOOLS_DYNAMIC_MATRIX(typename Eigen::PlainObjectBase<t_Derived>::Scalar)::Map(
                     matrix.data() + first_row,
-                    ceil( static_cast<double> (matrix.rows() - first_row)/row_step),
+                    ceil( static_cast<double> (matrix.rows() - static_cast<std::ptrdiff_t> (first_row)) / row_step),
                     matrix.cols(),
                     Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(matrix.rows(), row_step)));
     }
-- 
2.43.0


From 4c5cd91be67f17900a2be88debbd520b7a119a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:12 +0000
Subject: [PATCH 24/48] fix: products of Kronecker and block diagonal matrices
 with run-time block sizes

---
 .../eigentools/blockmatrix_kronecker.h        | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..ae05baa 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,12 +613,16 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.setZero(num_blocks_vert_ * dbm.getBlockRowsNum(),
+                               dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -831,12 +835,16 @@ namespace etools
 
 
 
-                BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
+                result.setZero(num_blocks_vert_ * dbm.getBlockRowsNum(),
+                               dbm.getNumberOfColumns());
+
+                BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -882,12 +890,16 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
-                BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
-                                    t_dbm_block_rows_num,
-                                    t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
+                result.setZero(dbm.getNumberOfRows(),
+                               num_blocks_hor_ * dbm.getBlockColsNum());
 
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
+                                t_dbm_block_rows_num,
+                                t_dbm_block_cols_num,
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
-- 
2.43.0


From 7398208cceeaafa53b0e78a054ab32cb75b59b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 25/48] fix: multiplyLeft of triangular Kronecker products
 checked wrong sizes

---
 core/include/eigentools/blockmatrix_kronecker.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index ae05baa..2f0ee71 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -882,11 +882,11 @@ namespace etools
                                                              t_dbm_block_cols_num,
                                                              MatrixSparsityType::DIAGONAL> &dbm) const
             {
-                EIGENTOOLS_ASSERT(dbm.getBlockRowsNum() == identity_size_,
+                EIGENTOOLS_ASSERT(dbm.getBlockColsNum() == identity_size_,
                                     "Block sizes do not match.");
-                EIGENTOOLS_ASSERT(num_blocks_hor_ == dbm.getNumberOfBlocksVertical(),
+                EIGENTOOLS_ASSERT(num_blocks_vert_ == dbm.getNumberOfBlocksHorizontal(),
                                     "Numbers of blocks do not match.");
-                EIGENTOOLS_ASSERT(num_blocks_hor_*identity_size_ == dbm.getNumberOfRows(),
+                EIGENTOOLS_ASSERT(num_blocks_vert_*identity_size_ == dbm.getNumberOfColumns(),
                                     "Sizes of matrices do not match.");
 
 
-- 
2.43.0


From 5395c5d9102476154b3c90fef046ffcc79fdf3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 26/48] fix: concatenateMatricesVertically skipped matrices
 after empty ones

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 7fbb7cf..38dadef 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices;)
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 6dc896339252d86f94c04b685e102c934b97b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 27/48] fix: bounds checks of removeRow and removeColumn

---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 38dadef..2807ebb 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is not less than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is not less than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 094a1f3eb0391de932f6e1daff3129a0cfdc6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:18 +0000
Subject: [PATCH 28/48] fix: a logger with an open file could not be
 initialized again

---
 core/include/humoto/logger.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..b8e1944 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -408,6 +408,11 @@ namespace humoto
              */
             void initialize(std::ostream & output_stream)
             {
+                if (output_file_stream_.is_open())
+                {
+                    output_file_stream_.close();
+                }
+
                 file_stream_is_open_ = false;
                 output_stream_ = &output_stream;
 
@@ -422,6 +427,11 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
+                if (output_file_stream_.is_open())
+                {
+                    output_file_stream_.close();
+                }
+
                 file_stream_is_open_ = true;
 
                 output_file_stream_.open(output_filename.c_str());
-- 
2.43.0


From c4171bfa1d26a1874bbf54b93142609af01b87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:03 +0000
Subject: [PATCH 29/48] fix: data race on the interruption flag of the logger

---
 core/include/humoto/logger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index b8e1944..4f6a4ca 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -603,12 +603,11 @@ namespace humoto
                     std::size_t num_msg = 0;
 
 
+                    message_queue_mutex_.lock();
                     if (interrupted_)
                     {
                         stop_thread = true;
                     }
-
-                    message_queue_mutex_.lock();
                     num_msg = message_queue_.size();
                     message_queue_mutex_.unlock();
 
@@ -654,7 +653,9 @@ namespace humoto
             {
                 if (! interrupted_)
                 {
+                    message_queue_mutex_.lock();
                     interrupted_ = true;
+                    message_queue_mutex_.unlock();
                     processor_thread_.join();
                 }
             }
-- 
2.43.0


From 50e622a0ac4fd8b33c6afb70c5e0b4c5106ebaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 30/48] fix: the log of a hierarchy ignored the given name

---
 core/include/humoto/hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 218c4c7..f92cd0a 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -295,7 +295,7 @@ namespace humoto
                            const std::string & name = "") const
             {
                 LogEntryName subname = parent;
-                subname.add("tasks");
+                subname.add(name).add("tasks");
 
                 for (std::size_t i = 0; i < getNumberOfLevels(); ++i)
                 {
-- 
2.43.0


From 484d58768c47e609a6c2a016129405f148833295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 31/48] fix: quotes in logged strings were not escaped

---
 core/include/humoto/logger.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 4f6a4ca..5a634c3 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -140,7 +140,17 @@ namespace humoto
                                                 const std::string & name,
                                                 const std::string &string)
             {
-                *out << name << " = '" << string << "';\n";
+                *out << name << " = '";
+                for (std::size_t i = 0; i < string.size(); ++i)
+                {
+                    // single quotes must be doubled in string literals
+                    if ('\'' == string[i])
+                    {
+                        *out << '\'';
+                    }
+                    *out << string[i];
+                }
+                *out << "';\n";
             }
 
 
-- 
2.43.0


From bb214d89731ba6cd255acd5095d317b4004b49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 32/48] fix: strings and arrays logged without a thread were
 not valid Octave code

---
 core/include/humoto/logger.h | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 5a634c3..cd60ffa 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -957,7 +957,38 @@ namespace humoto
                 void  log(  const LogEntryName & name,
                             const Eigen::DenseBase<t_Derived> &matrix)
             {
-                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), matrix.eval());
+                // other dense types (arrays, matrices with fixed maximal size)
+                // are not handled by the formatter
+                const Eigen::Matrix<
+                                typename Eigen::DenseBase<t_Derived>::Scalar,
+                                Eigen::DenseBase<t_Derived>::RowsAtCompileTime,
+                                Eigen::DenseBase<t_Derived>::ColsAtCompileTime,
+                                ((Eigen::DenseBase<t_Derived>::RowsAtCompileTime == Eigen::Dynamic)
+                                    || (Eigen::DenseBase<t_Derived>::ColsAtCompileTime == Eigen::Dynamic))
+                                        ? Eigen::AutoAlign
+                                            | (Eigen::DenseBase<t_Derived>::IsRowMajor
+                                                ? Eigen::RowMajor
+                                                : Eigen::ColMajor)
+                                        : EIGENTOOLS_CONSTANT_SIZE_ALIGN_TYPE
+                                            | (Eigen::DenseBase<t_Derived>::IsRowMajor
+                                                ? Eigen::RowMajor
+                                                : Eigen::ColMajor)> evaluated_matrix(matrix.eval());
+
+                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), evaluated_matrix);
+                output_stream_->flush();
+            }
+
+
+            /**
+             * @brief Log data (char string)
+             *
+             * @param[in] name
+             * @param[in] string
+             */
+            void  log(  const LogEntryName & name,
+                        const char *string)
+            {
+                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), std::string(string));
                 output_stream_->flush();
             }
 
-- 
2.43.0


From 96e0beac23c974331c01cb1ca6c750d09cdaad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:47 +0000
Subject: [PATCH 33/48] fix: matrices of a wrong size in a configuration file
 were not refused

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 5 +++++
 bridges/config_yaml/interface/config_yaml/reader.h       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index beba48c..84f47f3 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -247,6 +247,11 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0)
+                                            && ((Eigen::Dynamic == t_rows) || (t_rows == num_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (t_cols == num_cols)),
+                                            std::string("Wrong size of a matrix in configuration file entry: ") + entry_name);
+
                             HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ef54f35..77c4474 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -207,6 +207,11 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0)
+                                            && ((Eigen::Dynamic == t_rows) || (t_rows == num_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (t_cols == num_cols)),
+                                            std::string("Wrong size of a matrix in configuration file entry: ") + entry_name);
+
                             HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
-- 
2.43.0


From 66dc29ad42ed593c12c3edc95501fb2c301c39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 34/48] fix: YAML writer: flush() writes the buffered output to
 the file

---
 bridges/config_yaml/interface/config_yaml/writer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index c56275c..e8486f0 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -272,6 +272,7 @@ namespace humoto
                     void flush()
                     {
                         destroyEmitter();
+                        config_ofs_.flush();
                         initEmitter();
                     }
             };
-- 
2.43.0


From 6ae4d1d02b2257d7096fcbfb9cd3752f3952b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 35/48] fix: solver parameters: setDefaults() resets all the
 parameters

---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 1 +
 bridges/qpOASES/interface/qpoases/solver.h       | 2 ++
 bridges/qpmad/interface/qpmad/solver.h           | 6 ++++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..10924a0 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..cab1689 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+                    options_.setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..330077f 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -38,12 +38,12 @@ namespace humoto
                         HUMOTO_CONFIG_SCALAR_(max_iter)
                     #include HUMOTO_CONFIG_DEFINE_ACCESSORS
 
-                    protected:
+                    public:
                         void setDefaults()
                         {
+                            static_cast< ::qpmad::SolverParameters & >(*this) = ::qpmad::SolverParameters();
                         }
 
-                    public:
                         QPmadParameters()
                         {
                         }
@@ -59,6 +59,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+                    options_.setDefaults();
                     regularization_factor_ = 0;
                 }
 
-- 
2.43.0


From 72165fa9e22e90c58c1e943f6bb337d5c917086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 36/48] fix: pepper_ik: checkStateTransition() compares
 positions of the root, not joint angles (did not compile)

---
 modules/pepper_ik/include/pepper_ik/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..709fea1 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.root_pose_);
+                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.root_pose_);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
-- 
2.43.0


From 77d94f3bec6b15dd46c1f316bdf07b5d581ba33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 37/48] fix: pepper_ik: getNextGeneralizedCoordinates() of a
 parsed solution did not compile

---
 modules/pepper_ik/include/pepper_ik/whole_body_controller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..c9a82e8 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -310,7 +310,7 @@ namespace humoto
                         const humoto::pepper_ik::Model<t_features>                      &model) const
                 {
                     HUMOTO_ASSERT(solution_is_parsed_ == true, "This function can be called only after the solution is parsed.");
-                    return(model.state_);
+                    return(model.getState());
                 }
 
 
-- 
2.43.0


From fec397e87cb4635b9136483987570b636d3d33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 38/48] fix: pepper_ik: desired poses and velocity tasks of
 tags use velocities of the tags

---
 .../pepper_ik/include/pepper_ik/task_tagcompletevel.h | 11 +++++++----
 .../include/pepper_ik/whole_body_controller.h         | 10 +++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..625453c 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -91,10 +91,13 @@ namespace humoto
 
                     model.getTagCompleteJacobian(A, tag_);
                     
-                    b.noalias() = k_complete_velocity_gain_ * 
-                            wb_controller.getTagVelocityInGlobal(model, tag_string_id_,
-                                      wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::COMPLETE),
-                                        rbdl::SpatialType::COMPLETE);
+                    // velocity of the tag, as in the Jacobian
+                    const etools::Matrix3 orientation = model.getTagOrientation(tag_);
+                    b.resize(6);
+                    b.head(3) = k_complete_velocity_gain_ * orientation *
+                            wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::ROTATION);
+                    b.tail(3) = k_complete_velocity_gain_ * orientation *
+                            wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::TRANSLATION);
 
                     if(!isApproximatelyEqual(1.0, getGain()))
                     {
diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index c9a82e8..2b21db6 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -99,7 +99,9 @@ namespace humoto
 
 
                 /**
-                 * @brief Get velocity in global frame
+                 * @brief Get velocity in global frame (wx, wy, wz, vx, vy, vz). The linear
+                 * part is the velocity of the point which coincides with the origin of
+                 * the global frame, not that of the tag.
                  *
                  * @param[in] model
                  * @param[in] tag_name
@@ -175,10 +177,8 @@ namespace humoto
                                                                                  rigidbody::EulerAngles::RPY);
 
                         tag_pose.tail(part_size) = model.getTagPosition(tag) + wbc_parameters_.control_interval_ *
-                                                                    getTagVelocityInGlobal(model, i->first,
-                                                                      getTagVelocityInLocal(i->first,
-                                                                             rbdl::SpatialType::COMPLETE),
-                                                                                rbdl::SpatialType::TRANSLATION); 
+                                                                    model.getTagOrientation(tag) *
+                                                                    getTagVelocityInLocal(i->first, rbdl::SpatialType::TRANSLATION);
                         
                         tags_desired_pose_global_[i->first] = tag_pose;
                     }
-- 
2.43.0


From 898a965be4e2bbcebcdeede8e00013f004758935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 39/48] fix: pepper_ik: yaw of the base was wrong by a half of
 a turn for a half of the orientations

---
 modules/pepper_ik/include/pepper_ik/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 709fea1..4d47800 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -437,7 +437,10 @@ namespace humoto
                  */
                 double getBaseYaw() const
                 {
-                    return (convertMatrixToEulerAngles(getBaseOrientation(), rigidbody::EulerAngles::RPY).z());
+                    // angles returned by convertMatrixToEulerAngles() are in
+                        // other ranges, yaw may differ by pi
+                        const etools::Matrix3 orientation = getBaseOrientation();
+                        return (std::atan2(orientation(1,0), orientation(0,0)));
                 }
 
 
-- 
2.43.0


From 955191a06c583b18b7112f23cd20b9d947f6425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 40/48] fix: pepper_ik: tasks use the tag and the parameters
 from the last configuration which was read

---
 modules/pepper_ik/include/pepper_ik/task_bodycom.h        | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 3 +++
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 3 +++
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 4 ++++
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 3 +++
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 3 +++
 6 files changed, 17 insertions(+)

diff --git a/modules/pepper_ik/include/pepper_ik/task_bodycom.h b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
index c35485d..890db1d 100644
--- a/modules/pepper_ik/include/pepper_ik/task_bodycom.h
+++ b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
@@ -36,6 +36,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_position_gain_ = 0.0;
+                    axis_flag_ = AxisIndex::FLAG_X | AxisIndex::FLAG_Y | AxisIndex::FLAG_Z;
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..e84c76c 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -38,6 +38,9 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_angular_velocity_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    // the tag may be different after reading of a configuration
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 625453c..2dd21db 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -38,6 +38,9 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_complete_velocity_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    // the tag may be different after reading of a configuration
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..cf98634 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -40,6 +40,10 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_orientation_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    reference_rpy_.setZero();
+                    // the tag may be different after reading of a configuration
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..9cc8604 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -38,6 +38,9 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    // the tag may be different after reading of a configuration
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..da0f00a 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -40,6 +40,9 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    // the tag may be different after reading of a configuration
+                    tag_.reset();
                 }
 
 
-- 
2.43.0


From 4cf1b7dfa32f9cc850f5369e808b0c5a0031a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 41/48] fix: CrossProductMatrix: product with a matrix which is
 not a vector did not compile

---
 core/include/eigentools/cross_product.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/cross_product.h b/core/include/eigentools/cross_product.h
index 3b96b72..c374811 100644
--- a/core/include/eigentools/cross_product.h
+++ b/core/include/eigentools/cross_product.h
@@ -90,7 +90,7 @@ namespace etools
                 void multiplyRight( Eigen::PlainObjectBase<t_DerivedOutput>     &result,
                                     const Eigen::MatrixBase<t_DerivedInput>      &matrix) const
             {
-                result.noalias() = vector_.cross(matrix);
+                result.noalias() = eval() * matrix;
             }
     };
 
-- 
2.43.0


From 843bd7f34711950ca8696aaa021b2c0210bf0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 42/48] fix: removeRow(), removeColumn(): negative indices are
 refused instead of corrupting memory

---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 2807ebb..003ea96 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is not less than the size of the matrix.");
+        EIGENTOOLS_ASSERT((row_to_remove >= 0) && (row_to_remove < matrix.rows()), "The index of a removed row is out of range.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is not less than the size of the matrix.");
+        EIGENTOOLS_ASSERT((column_to_remove >= 0) && (column_to_remove < matrix.cols()), "The index of a removed column is out of range.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 06dbde3737bb3622f075751203bd32d45cb966fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 43/48] fix: a configuration reader can be used after a section
 was refused

---
 .../interface/config_msgpack/reader.h         | 25 +++++++++++++++++++
 .../interface/config_yaml/reader.h            | 25 +++++++++++++++++++
 core/include/config.h                         |  2 ++
 3 files changed, 52 insertions(+)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 84f47f3..0fc9ff7 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -164,6 +164,31 @@ namespace humoto
                     }
 
 
+                    /**
+                     * @brief Current depth in the tree of nodes.
+                     *
+                     * @return depth
+                     */
+                    std::size_t getDepth() const
+                    {
+                        return(node_stack_.size());
+                    }
+
+
+                    /**
+                     * @brief Go back to the node at the given depth, e.g., after a failure.
+                     *
+                     * @param[in] depth
+                     */
+                    void ascendTo(const std::size_t depth)
+                    {
+                        while (node_stack_.size() > depth)
+                        {
+                            node_stack_.pop();
+                        }
+                    }
+
+
                     /**
                      * @brief Read configuration entry (vector)
                      *
diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index 77c4474..b015ec3 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -124,6 +124,31 @@ namespace humoto
                     }
 
 
+                    /**
+                     * @brief Current depth in the tree of nodes.
+                     *
+                     * @return depth
+                     */
+                    std::size_t getDepth() const
+                    {
+                        return(node_stack_.size());
+                    }
+
+
+                    /**
+                     * @brief Go back to the node at the given depth, e.g., after a failure.
+                     *
+                     * @param[in] depth
+                     */
+                    void ascendTo(const std::size_t depth)
+                    {
+                        while (node_stack_.size() > depth)
+                        {
+                            node_stack_.pop();
+                        }
+                    }
+
+
                     /**
                      * @brief Read configuration entry (vector)
                      *
diff --git a/core/include/config.h b/core/include/config.h
index 6672d75..3728542 100644
--- a/core/include/config.h
+++ b/core/include/config.h
@@ -133,6 +133,7 @@ namespace humoto
                                                 const std::string   & node_name,
                                                 const bool          crash_on_missing_entry = default_crash_on_missing_entry_)
                     {
+                        const std::size_t depth = reader.getDepth();
                         try
                         {
                             setDefaults();
@@ -151,6 +152,7 @@ namespace humoto
                         }
                         catch(const std::exception &e)
                         {
+                            reader.ascendTo(depth);
                             HUMOTO_THROW_MSG(std::string("Failed to parse node <") + node_name + "> in the configuration file: " + e.what());
                         }
                     }
-- 
2.43.0


From 7dab182f560545fc45fad986c23d312195260fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 44/48] fix: unknown links are refused

---
 bridges/rbdl/interface/rbdl/model.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..87e38cd 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -741,7 +741,12 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    const std::size_t id = rbdl_model_.GetBodyId(string_id.c_str());
+                    if (std::numeric_limits<unsigned int>::max() == id)
+                    {
+                        HUMOTO_THROW_MSG(std::string("Unknown link: ") + string_id);
+                    }
+                    return (id);
                 }
 
 
-- 
2.43.0


From 81ffda1c535aaa0635b839b55b0c3088362e5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:28 +0000
Subject: [PATCH 45/48] fix: a model can be loaded again

---
 bridges/rbdl/interface/rbdl/model.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 87e38cd..39f1d2e 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -704,6 +704,8 @@ namespace humoto
                 void setDefaults()
                 {
                     total_mass_ = 0.0;
+                    // reading of a file adds bodies to the model
+                    rbdl_model_ = RigidBodyDynamics::Model();
                 }
 
 
-- 
2.43.0


From d4395a32dceb677b59ca1d7c03a316f8507be6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:04 +0000
Subject: [PATCH 46/48] fix: masses and centers of mass of fixed links

---
 bridges/rbdl/interface/rbdl/model.h | 50 ++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 39f1d2e..48ca34e 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -190,7 +190,7 @@ namespace humoto
                 {
                     LinkId id = getLinkId(link_string_id);
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
-                                                                    rbdl_model_.mBodies[id].mCenterOfMass));
+                                                                    getLinkCoM(id)));
                     return(ptr);
                 }
 
@@ -213,7 +213,7 @@ namespace humoto
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
 
-                        total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
+                        total_mass += getLinkMass(link_ids[i]);
                     }
 
                     boost::shared_ptr<TagPartialCoM> ptr(new  TagPartialCoM(link_ids, total_mass));
@@ -252,8 +252,8 @@ namespace humoto
                         LinkId  id = tag->link_ids_[i];
 
                         com_position.noalias() +=
-                            rbdl_model_.mBodies[id].mMass
-                            * getPointTagPosition(id, rbdl_model_.mBodies[id].mCenterOfMass);
+                            getLinkMass(id)
+                            * getPointTagPosition(id, getLinkCoM(id));
 
                         /*
                         com_position.noalias() +=
@@ -426,7 +426,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
-                    return (rbdl_model_.mBodies[tag->link_id_].mMass);
+                    return (getLinkMass(tag->link_id_));
                 }
 
 
@@ -448,15 +448,15 @@ namespace humoto
                     {
                         LinkId id = tag->link_ids_[i];
 
-                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, rbdl_model_.mBodies[id].mCenterOfMass);
+                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, getLinkCoM(id));
 
                         if (i == 0)
                         {
-                            jacobian.noalias() = jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() = jacobian_i * getLinkMass(id);
                         }
                         else
                         {
-                            jacobian.noalias() += jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() += jacobian_i * getLinkMass(id);
                         }
                     }
 
@@ -734,6 +734,40 @@ namespace humoto
 
 
 
+                /**
+                 * @brief Mass of a link
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return mass
+                 */
+                double getLinkMass(const std::size_t link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mMass);
+                    }
+                    return (rbdl_model_.mBodies[link_id].mMass);
+                }
+
+
+                /**
+                 * @brief Center of mass of a link
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return position in the frame of the link
+                 */
+                etools::Vector3 getLinkCoM(const std::size_t link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mCenterOfMass);
+                    }
+                    return (rbdl_model_.mBodies[link_id].mCenterOfMass);
+                }
+
+
                 /**
                  * @brief Determines id of a body based on its string id.
                  *
-- 
2.43.0


From 95e9f1a4beba361a69060b6594907d7e937ded91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 47/48] fix: a failure of QuadProg++ is not described as a
 success

---
 bridges/QuadProgpp/interface/quadprogpp/solution.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solution.h b/bridges/QuadProgpp/interface/quadprogpp/solution.h
index b388ffb..a3167a9 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solution.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solution.h
@@ -31,13 +31,13 @@ namespace humoto
                  */
                 std::string getStatusDescription() const
                 {
-                    if (quadprogpp_return_value_ == std::numeric_limits<double>::infinity())
+                    if (quadprogpp_return_value_ == QuadProgpp::Status::OK)
                     {
-                        return ("quadprogpp: an infeasible or degenerate problem.");
+                        return ("quadprogpp: Ok.");
                     }
                     else
                     {
-                        return ("quadprogpp: Ok.");
+                        return ("quadprogpp: an infeasible or degenerate problem.");
                     }
                 }
 
-- 
2.43.0


From c0e811cafbb94f56c5e017841ae92f6f05c1d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:22 +0000
Subject: [PATCH 48/48] fix: the length of the preview horizon of pepper_mpc
 can be changed

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 3797755..3c15bf5 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -164,6 +164,8 @@ namespace humoto
 
                     std::size_t number_of_state_variables = model.Ns_ * mpc_parameters_.preview_horizon_length_;
 
+                    // the length of the preview horizon may have been changed
+                    S_.resize(number_of_state_variables, sol_structure_.getNumberOfVariables());
                     etools::BlockMatrixInterface<   etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixSparsityType::NONE> S_bmi( S_,
-- 
2.43.0

