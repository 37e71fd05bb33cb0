From b1b05653d419f701f4c834ab41463b22f5cfe0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 01/13] fix: return the IMU measurement pair by value, not a
 dangling reference

---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From b48cbd8e2c991d108635e070d3790f8ad5cc81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 02/13] fix: scale gravity by the vehicle mass to obtain the
 gravity force

The acceleration is total force / mass, so the gravity acceleration has to be
multiplied by the mass (docs/Dynamics.md, 3.1.1). Free fall was g / m before.
---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..1814dde 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,7 +187,8 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(),
         model_.get_stochastic_force(), external_force, state_.dynamics.force);
 
     Vector3 position_derivative =
-- 
2.43.0


From d6b8573e0ef07ee487fe71dd58c3a43409fdf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 03/13] fix: simulate exactly dt seconds when a long step is
 split

A dt that is no multiple of 0.01 s was rounded up to the next multiple.
---
 .../multirotor_dynamic_model/dynamics.hpp                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 1814dde..83c60fe 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -34,6 +34,8 @@
 #ifndef MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 #define MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include "multirotor_dynamic_model/common/state.hpp"
@@ -148,10 +150,11 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
+      // Split dt in equal sub-steps, so that exactly dt seconds are simulated
+      const int num_iter  = static_cast<int>(std::ceil(dt / LOWEST_UPDATE_FREQUENCY));
+      const Scalar sub_dt = std::min(dt / num_iter, static_cast<Scalar>(LOWEST_UPDATE_FREQUENCY));
       for (int i = 0; i < num_iter; i++) {
-        process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
-                               enable_noise);
+        process_euler_explicit(actuation_angular_velocity, sub_dt, external_force, enable_noise);
       }
       return;
     }
-- 
2.43.0


From 2783fcd06251777e67fa827b3788e81d8cb26e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 04/13] fix: dereference the pointer in Dynamics::set_state and
 set_model

The pointer overloads did not compile when used.
---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 83c60fe..6bb2d30 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -266,7 +266,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -284,7 +284,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From ff52d558e2b665b4b214ef486cbd80991cb2d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 05/13] fix: rotate IMU forces from world to body and odometry
 back to world

The vehicle orientation maps body to world, so both rotations were inverted.
The errors cancelled out for the odometry, but not for the accelerometer, nor
for an odometry whose orientation differs from the vehicle orientation.
---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..5d10dee 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -243,7 +243,8 @@ public:
   inline void update_imu(const Scalar dt) {
     // Convert force from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    dynamics_.get_state().dynamics.force,
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 4094c40d6edb1841f30bd56287215234099a9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 06/13] fix: feed the IMU with force per unit of mass, as it
 measures m/s^2

---
 multirotor_simulator/multirotor_simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 5d10dee..aaccf0e 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -244,7 +244,7 @@ public:
     // Convert force from world to body frame
     imu_.update(dt,
                 dynamics_.get_state().kinematics.orientation.inverse() *
-                    dynamics_.get_state().dynamics.force,
+                    (dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass()),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 86e3849f0d6071de3d9399e3f286b92787737e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 07/13] fix: use the simulator precision in set_control_mode

Simulator<float> did not compile.
---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index aaccf0e..cc871e0 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -319,10 +319,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From bf8bfe6ff7293814e45f563089f1b50a840e1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 08/13] fix: accept INDI parameters of any number of rotors

Controller and Simulator did not compile for other than 4 rotors.
---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..fcb4bd4 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(const IndiControllerParams<P, num_rotors> &params =
+                              IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From bcdba2b8625702ef62e268b2575b016f71cab73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 09/13] fix: store the mixer matrix, which a local variable
 shadowed

get_mixer_matrix() returned uninitialized memory of the transposed shape.
---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..75a5946 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -479,7 +479,7 @@ public:
    *
    * @return MatrixN6 Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From 2b707a0eb7e89af471a4db67a396f889b51c76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 10/13] fix: reset a saturated PID integral when the error
 changes sign

The integral is clamped to the anti-windup limit, so it never exceeds it and
reset_integral_flag had no effect.
---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..2785872 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -630,7 +630,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..48551ed 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -535,7 +535,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From 942b772819643f5ce58680ddb7515e1d46e251b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 11/13] fix: clear the PID output limits when the saturation is
 disabled

get_params() reported the stale limits, and a controller built from these
parameters saturated its output again.
---
 pid_controller/include/pid_controller/pid.hpp    | 6 +++++-
 pid_controller/include/pid_controller/pid_1d.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 2785872..01e6a08 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -202,7 +202,11 @@ public:
    *
    * @param saturation_flag Saturation flag
    */
-  inline void disable_output_saturation() { saturation_flag_ = false; }
+  inline void disable_output_saturation() {
+    saturation_flag_         = false;
+    upper_output_saturation_ = Vector::Zero();
+    lower_output_saturation_ = Vector::Zero();
+  }
 
   /**
    * @brief Get the proportional error
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 48551ed..d2db0f1 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -185,7 +185,11 @@ public:
    *
    * @param saturation_flag Saturation flag
    */
-  inline void disable_output_saturation() { saturation_flag_ = false; }
+  inline void disable_output_saturation() {
+    saturation_flag_         = false;
+    upper_output_saturation_ = 0.0;
+    lower_output_saturation_ = 0.0;
+  }
 
   /**
    * @brief Get the proportional error
-- 
2.43.0


From 59c6fc384f4f76d4c3fcafd6860f724d45663465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:32 +0000
Subject: [PATCH 12/13] fix: drop the floor support force when the time step is
 rejected

---
 multirotor_simulator/multirotor_simulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index cc871e0..6b168bf 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -136,11 +136,13 @@ public:
    * @param dt Scalar Time step (s)
    */
   void update_dynamics(const Scalar dt) {
+    // Keep the support force local, so that it does not remain if the time step is rejected
+    Vector3 external_force = external_force_;
     if (floor_collision_enable_ && dynamics_.get_state().kinematics.position.z() < floor_height_) {
-      external_force_ =
+      external_force =
           -dynamics_.get_model_const().get_gravity() * dynamics_.get_model_const().get_mass();
     }
-    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force_,
+    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force,
                                      !floor_collision_);
     external_force_  = Vector3::Zero();
     floor_collision_ = false;
-- 
2.43.0


From 3115e89a7c6ca55fa8bd6a07abdb4aba76484e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:22 +0000
Subject: [PATCH 13/13] fix: separate all entries of the labelled state
 printouts

print_actuators ran the last motor velocity into the first motor acceleration, and
print_state ran the kinematics, dynamics and actuators groups into each other.
---
 .../multirotor_dynamic_model/common/state.hpp            | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
index ca14570..8d991a8 100644
--- a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
@@ -203,10 +203,7 @@ std::ostream& operator<<(std::ostream& os, const Actuators<T, num_rotors>& actua
 template <typename T = double, int num_rotors = 4>
 std::ostream& print_actuators(std::ostream& os, const Actuators<T, num_rotors>& actuators) {
   for (int i = 0; i < num_rotors; i++) {
-    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i];
-    if (i < num_rotors - 1) {
-      os << ", ";
-    }
+    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i] << ", ";
   }
   for (int i = 0; i < num_rotors; i++) {
     os << "motor_" << i << "_angular_acceleration: " << actuators.motor_angular_acceleration[i];
@@ -247,8 +244,8 @@ std::ostream& operator<<(std::ostream& os, const State<T, num_rotors>& state) {
 
 template <typename T = double, int num_rotors = 4>
 void print_state(const State<T, num_rotors>& state) {
-  state::internal::print_kinematics(std::cout, state.kinematics);
-  state::internal::print_dynamics(std::cout, state.dynamics);
+  state::internal::print_kinematics(std::cout, state.kinematics) << ", ";
+  state::internal::print_dynamics(std::cout, state.dynamics) << ", ";
   state::internal::print_actuators(std::cout, state.actuators);
 }
 
-- 
2.43.0

