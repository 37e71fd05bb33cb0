// Simulator level helpers: construction, snapshots of everything observable, exact comparison.
#pragma once
#include "qm.hpp"

namespace qm {

template <typename P = double, int N = 4> using Sim = multirotor::Simulator<P, N>;

struct SimSpec {
  ref::Vehicle body;
  ref::State start;
  CtrlSpec ctrl;
  double fnoise = 0, mnoise = 0;
  int model_seed = 0;
  double gyro_var = 0, accel_var = 0, gyro_walk = 0, accel_walk = 0;
  ref::Q imu_q;
  int imu_seed = 0;
  double alpha = 1;
  ref::Q odo_q;
};
inline SimSpec spec(const ref::Vehicle& b, const CtrlSpec& c) {
  SimSpec s;
  s.body = b;
  s.ctrl = c;
  s.start.m.assign(b.rotors.size(), 0);
  s.start.dm.assign(b.rotors.size(), 0);
  return s;
}
template <typename P = double>
imu::IMUParams<P> imu_params(const SimSpec& s) {
  imu::IMUParams<P> p;
  p.gyro_noise_var = (P)s.gyro_var;
  p.accel_noise_var = (P)s.accel_var;
  p.gyro_bias_noise_autocorr_time = (P)s.gyro_walk;
  p.accel_bias_noise_autocorr_time = (P)s.accel_walk;
  p.imu_orientation = eq<P>(s.imu_q);
  p.seed = s.imu_seed;
  return p;
}
template <typename P = double>
imu::InertialOdometryParams<P> odo_params(const SimSpec& s) {
  imu::InertialOdometryParams<P> p;
  p.alpha = (P)s.alpha;
  p.initial_world_orientation = eq<P>(s.odo_q);
  return p;
}
template <typename P = double, int N = 4>
multirotor::dynamics::DynamicsParams<P, N> dyn_params(const SimSpec& s) {
  multirotor::dynamics::DynamicsParams<P, N> p;
  p.model_params = model_params<P, N>(s.body);
  p.model_params.force_process_noise_auto_correlation = (P)s.fnoise;
  p.model_params.moment_process_noise_auto_correlation = (P)s.mnoise;
  p.state = put<P, N>(s.start);
  p.model_seed = s.model_seed;
  return p;
}
template <typename P = double, int N = 4>
multirotor::SimulatorParams<P, N> sim_params(const SimSpec& s) {
  multirotor::SimulatorParams<P, N> p;
  p.dynamics_params = dyn_params<P, N>(s);
  p.controller_params = ctrl_params<P, N>(s.ctrl);
  p.imu_params = imu_params<P>(s);
  p.inertial_odometry_params = odo_params<P>(s);
  return p;
}

// The references, modes and commands of a simulator
struct Refs {
  bool armed, floor;
  double height, thrust, yaw, yaw_rate;
  int mode, ymode;
  ref::V rate, pos, vel, acc, ext;
  std::vector<double> motors, act;
};
template <typename P, int N>
Refs refs(const Sim<P, N>& s) {
  Refs r;
  r.armed = s.get_armed();
  r.floor = s.get_floor_collision_enabled();
  r.height = s.get_floor_height();
  r.thrust = s.get_reference_thrust();
  r.yaw = s.get_reference_yaw();
  r.yaw_rate = s.get_reference_yaw_rate();
  r.mode = (int)s.get_control_mode();
  r.ymode = (int)s.get_yaw_control_mode();
  r.rate = v3(s.get_reference_angular_velocity());
  r.pos = v3(s.get_reference_position());
  r.vel = v3(s.get_reference_velocity());
  r.acc = v3(s.get_reference_acceleration());
  r.ext = v3(s.get_external_force());
  r.motors = vn(s.get_reference_motors_angular_velocity());
  r.act = vn(s.get_actuation_motors_angular_velocity());
  return r;
}
inline void same_refs(mc::Run& r, const Refs& a, const Refs& e, bool act = true) {
  r.require(a.armed == e.armed, "arming state");
  r.require(a.floor == e.floor, "floor enabled");
  r.require(a.mode == e.mode, "control mode");
  r.require(a.ymode == e.ymode, "yaw mode");
  r.same(a.height, e.height, "floor height");
  r.same(a.thrust, e.thrust, "thrust reference");
  r.same_v(a.rate, e.rate, 3, "body rate reference");
  r.same_v(a.pos, e.pos, 3, "position reference");
  r.same_v(a.vel, e.vel, 3, "velocity reference");
  r.same_v(a.acc, e.acc, 3, "acceleration reference");
  r.same(a.yaw_rate, e.yaw_rate, "yaw rate reference");
  r.same(a.yaw, e.yaw, "yaw reference");
  r.same_v(a.motors, e.motors, (int)e.motors.size(), "motor reference");
  if (act) r.same_v(a.act, e.act, (int)e.act.size(), "commanded motor speed");
}
inline void obs_refs(mc::Run& r, const Refs& s) {
  r.obs_tag(s.armed * 64 + s.floor * 32 + s.mode * 2 + s.ymode);
  r.obs(s.height); r.obs(s.thrust); r.obs(s.yaw); r.obs(s.yaw_rate);
  r.obs(s.rate); r.obs(s.pos); r.obs(s.vel); r.obs(s.acc); r.obs(s.motors); r.obs(s.act);
}
// IMU and odometry
struct Sensors {
  ref::V gyro, accel, gbias, abias, p, v, w, a;
  ref::Q q;
};
template <typename P>
void imu_into(Sensors& s, const imu::IMU<P>& i) {
  E3<P> g, a;
  i.get_measurement(g, a);
  s.gyro = v3(g); s.accel = v3(a);
  i.get_bias(g, a);
  s.gbias = v3(g); s.abias = v3(a);
}
template <typename P>
void odo_into(Sensors& s, const imu::InertialOdometry<P>& o) {
  s.p = v3(o.get_position()); s.v = v3(o.get_linear_velocity()); s.w = v3(o.get_angular_velocity());
  s.a = v3(o.get_linear_acceleration()); s.q = q4(o.get_orientation());
}
template <typename P, int N>
Sensors sensors(const Sim<P, N>& s) {
  Sensors r;
  imu_into(r, s.get_imu_const());
  odo_into(r, s.get_inertial_odometry_const());
  return r;
}
inline void same_imu(mc::Run& r, const Sensors& a, const Sensors& e) {
  r.same_v(a.gyro, e.gyro, 3, "gyroscope"); r.same_v(a.accel, e.accel, 3, "accelerometer");
  r.same_v(a.gbias, e.gbias, 3, "gyroscope bias"); r.same_v(a.abias, e.abias, 3, "accelerometer bias");
}
inline void same_odo(mc::Run& r, const Sensors& a, const Sensors& e) {
  r.same_v(a.p, e.p, 3, "odometry position"); r.same_v(a.v, e.v, 3, "odometry velocity");
  r.same_v(a.w, e.w, 3, "odometry body rates"); r.same_v(a.a, e.a, 3, "odometry acceleration");
  r.same_v(flat_q(a.q), flat_q(e.q), 4, "odometry attitude");
}
inline void same_sensors(mc::Run& r, const Sensors& a, const Sensors& e) { same_imu(r, a, e); same_odo(r, a, e); }
inline void obs_sensors(mc::Run& r, const Sensors& s) {
  r.obs(s.gyro); r.obs(s.accel); r.obs(s.gbias); r.obs(s.abias); r.obs(s.p); r.obs(s.v); r.obs(flat_q(s.q));
}
// Set-points, memory and settings of the controller stack that can be seen from outside
template <typename P, int N>
std::vector<double> ctrl_view(const multirotor::controller::Controller<P, N>& c) {
  std::vector<double> o;
  auto put3 = [&](const ref::V& v) { o.insert(o.end(), v.begin(), v.end()); };
  put3(v3(c.get_desired_position())); put3(v3(c.get_desired_linear_velocity()));
  put3(v3(c.get_desired_linear_acceleration())); put3(v3(c.get_desired_angular_velocity()));
  o.push_back(c.get_desired_thrust());
  for (double x : vn(c.get_desired_motor_angular_velocity())) o.push_back(x);
  auto pid = [&](const auto& p) {
    put3(v3(p.get_output())); put3(v3(p.get_proportional_error())); put3(v3(p.get_derivative_error()));
    put3(v3(p.get_proportional_error_contribution())); put3(v3(p.get_integral_error_contribution()));
    put3(v3(p.get_derivative_error_contribution()));
    auto s = p.get_params();
    put3(v3(s.Kp_gains)); put3(v3(s.Ki_gains)); put3(v3(s.Kd_gains)); put3(v3(s.antiwindup_cte)); put3(v3(s.alpha));
    put3(v3(s.upper_output_saturation)); put3(v3(s.lower_output_saturation));
    o.push_back(s.reset_integral_flag + 2 * s.proportional_saturation_flag + 4 * p.get_output_saturation_flag());
  };
  pid(c.get_indi_controller_const()); pid(c.get_position_controller_const());
  pid(c.get_velocity_controller_const()); pid(c.get_trajectory_controller_const());
  auto& ac = c.get_acro_controller_const();
  o.push_back(ac.get_vehicle_mass()); put3(v3(ac.get_gravity()));
  auto& in = c.get_indi_controller_const();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.push_back(ac.get_kp_rot()(i, j)), o.push_back(in.get_inertia()(i, j));
  for (int i = 0; i < N; i++) for (int j = 0; j < 6; j++) o.push_back(in.get_mixer_matrix_inverse()(i, j));
  return o;
}
template <typename P, int N>
void same_ctrl(mc::Run& r, const multirotor::controller::Controller<P, N>& a, const multirotor::controller::Controller<P, N>& b, const char* what = "controller set-points, terms and settings") {
  auto x = ctrl_view<P, N>(a), y = ctrl_view<P, N>(b);
  r.same_v(x, y, (int)x.size(), what);
}
// What a controller would do next: shows the memory that no query reports
template <typename P, int N>
std::vector<double> probe(multirotor::controller::Controller<P, N> c) {
  std::vector<double> o;
  auto add = [&](const EN<P, N>& m) { for (double x : vn(m)) o.push_back(x); };
  EM<P> R = eq<P>(ref::rpy(0.3, -0.2, 0.9)).toRotationMatrix();
  auto t = c;
  add(c.compute_position_control(e3<P>({0.1, 0.2, 0.3}), R, e3<P>({0.3, -0.1, 0.2}), e3<P>({0.2, 0.1, -0.1}), e3<P>({0.6, -0.4, 0.9}), (P)0.4, (P)0.05));
  for (double x : v3(c.get_desired_linear_velocity())) o.push_back(x);
  add(t.compute_trajectory_control(e3<P>({0.1, 0.2, 0.3}), e3<P>({0.3, -0.1, 0.2}), R, e3<P>({0.2, 0.1, -0.1}), e3<P>({0.6, -0.4, 0.9}), e3<P>({0.2, 0.1, 0}), e3<P>({0.1, -0.1, 0.2}), (P)0.4, (P)0.05));
  return o;
}
template <typename P, int N>
void same_memory(mc::Run& r, const multirotor::controller::Controller<P, N>& a, const multirotor::controller::Controller<P, N>& b, const char* what = "memory of the controllers") {
  auto x = probe<P, N>(a), y = probe<P, N>(b);
  r.same_v(x, y, (int)x.size(), what);
}
template <typename P, int N>
void same_all(mc::Run& r, const Sim<P, N>& a, const Sim<P, N>& b) {
  same_refs(r, refs<P, N>(a), refs<P, N>(b));
  same_state(r, get<P, N>(a.get_state()), get<P, N>(b.get_state()));
  same_sensors(r, sensors<P, N>(a), sensors<P, N>(b));
  same_ctrl<P, N>(r, a.get_controller_const(), b.get_controller_const());
}
template <typename P, int N>
void obs_all(mc::Run& r, const Sim<P, N>& s) {
  obs_refs(r, refs<P, N>(s));
  obs_state(r, get<P, N>(s.get_state()));
}
static const char* const mode_name[] = {"HOVER", "MOTOR_W", "ACRO", "TRAJECTORY", "VELOCITY", "POSITION"};
inline multirotor::ControlMode cmode(int i) { return (multirotor::ControlMode)i; }
inline multirotor::YawControlMode ymode(int i) { return (multirotor::YawControlMode)i; }
template <typename P = double, int N = 4>
EN<P, N> pattern(double base, double inc) {
  EN<P, N> e;
  for (int i = 0; i < N; i++) e[i] = (P)(base + inc * i);
  return e;
}
// Set every reference to values that differ from each other and between variants
template <typename P, int N>
void set_all_refs(Sim<P, N>& s, int k) {
  double a = k == 0 ? 1 : k == 1 ? -0.7 : 0.35;
  s.set_refence_motors_angular_velocity(pattern<P, N>(500 + 100 * a, 37 * a));
  s.set_reference_acro((P)(9 + 2 * a), e3<P>({0.3 * a, -0.2 * a, 0.5 * a}));
  s.set_reference_trajectory(e3<P>({1.1 * a, -2.2, 3.3 * a}), e3<P>({0.4, 0.6 * a, -0.5}), e3<P>({0.7 * a, -0.9, 0.25 * a}));
  s.set_reference_velocity(e3<P>({-0.8 * a, 0.45, 0.65 * a}));
  s.set_reference_position(e3<P>({2.5, 1.4 * a, 1.9 * a}));
  s.set_reference_yaw_angle((P)(0.6 * a));
  s.set_reference_yaw_rate((P)(-0.9 * a));
}
// Flight states
inline ref::State flight(int k, int n) {
  ref::State s;
  s.m.assign(n, 0);
  s.dm.assign(n, 0);
  auto motors = [&](double b, double i) { for (int j = 0; j < n; j++) s.m[j] = b + i * j; };
  switch (k) {
    case 0: break;  // at rest at the origin
    case 1: s.p = {0.5, -1.5, 2.5}; s.v = {0.3, -0.4, 0.2}; s.q = ref::rpy(0.2, -0.1, 0.8); s.w = {0.1, 0.2, -0.3}; motors(1100, 10); break;
    case 2: s.p = {-3, 2, 6}; s.v = {-1.5, 2, -3}; s.q = ref::rpy(-0.9, 0.7, -2.6); s.w = {2, -1.5, 1}; motors(1300, -30); break;
    case 3: s.p = {10, 20, 0.01}; s.v = {0.1, 0, -2}; s.q = ref::rpy(0.05, 0.02, 3.0); motors(900, 0); break;
    case 4: s.p = {1, 1, 30}; s.v = {4, -6, 1}; s.q = ref::rpy(2.8, 0.4, 1.0); s.w = {-4, 3, 5}; motors(400, 200); break;
    default: s.p = {-0.2, 0.1, -1}; s.v = {0, 0.1, 0.05}; s.q = ref::rpy(0, 0, -1.2); motors(1133, 0); break;
  }
  return s;
}

}  // namespace qm
