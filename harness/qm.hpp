// Bridge between the code under test and the reference model, and the configurations explored.
#pragma once
#include <multirotor_simulator.hpp>
#include <pid_controller/pid.hpp>
#include <pid_controller/pid_1d.hpp>
#include "mc.hpp"
#include "ref.hpp"

namespace qm {

using ref::operator+;
using ref::operator-;
using ref::operator*;
using ref::operator/;

template <typename P> using E3 = Eigen::Matrix<P, 3, 1>;
template <typename P> using EM = Eigen::Matrix<P, 3, 3>;
template <typename P, int N> using EN = Eigen::Matrix<P, N, 1>;

template <typename D> ref::V v3(const Eigen::MatrixBase<D>& e) { return {(double)e[0], (double)e[1], (double)e[2]}; }
template <typename P> ref::Q q4(const Eigen::Quaternion<P>& q) { return {(double)q.w(), (double)q.x(), (double)q.y(), (double)q.z()}; }
template <typename D> ref::M m3(const Eigen::MatrixBase<D>& e) {
  ref::M m{};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = (double)e(i, j);
  return m;
}
template <typename D> std::vector<double> vn(const Eigen::MatrixBase<D>& e) {
  std::vector<double> r;
  for (int i = 0; i < (int)e.size(); i++) r.push_back((double)e[i]);
  return r;
}
template <typename P = double> E3<P> e3(const ref::V& v) { return E3<P>((P)v[0], (P)v[1], (P)v[2]); }
template <typename P = double> EM<P> em(const ref::M& m) {
  EM<P> e;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e(i, j) = (P)m[i][j];
  return e;
}
template <typename P = double> Eigen::Quaternion<P> eq(const ref::Q& q) { return Eigen::Quaternion<P>((P)q.w, (P)q.x, (P)q.y, (P)q.z); }
template <typename P, int N> EN<P, N> en(const std::vector<double>& v) {
  EN<P, N> e;
  for (int i = 0; i < N; i++) e[i] = (P)v[i];
  return e;
}
inline ref::M diag(double a, double b, double c) { return {ref::V{a, 0, 0}, ref::V{0, b, 0}, ref::V{0, 0, c}}; }

// -------------------------------------------------------------- vehicles
inline ref::Rotor rotor(int dir, double kf, double kt, double lo, double hi, double tau, double J, ref::V pos,
                        ref::M rot = diag(1, 1, 1)) {
  ref::Rotor r;
  r.dir = dir; r.kf = kf; r.kt = kt; r.lo = lo; r.hi = hi; r.tau = tau; r.inertia = J; r.pos = pos; r.rot = rot;
  return r;
}
// 0: the vehicle of the repository's examples
inline ref::Vehicle standard(double mass = 1.0) {
  ref::Vehicle b;
  const double kf = 1.91e-6, kt = 2.6e-7, J = 6.62e-6;
  b.rotors = {rotor(1, kf, kt, 0, 2200, 0.02, J, {0.08, -0.08, 0}), rotor(-1, kf, kt, 0, 2200, 0.02, J, {0.08, 0.08, 0}),
              rotor(1, kf, kt, 0, 2200, 0.02, J, {-0.08, 0.08, 0}), rotor(-1, kf, kt, 0, 2200, 0.02, J, {-0.08, -0.08, 0})};
  b.mass = mass;
  b.inertia = diag(0.0049, 0.0049, 0.0069);
  b.drag = 0.1;
  b.aero = diag(0.003, 0.003, 0.003);
  return b;
}
// 1: heavy, every rotor different, full inertia and aerodynamic matrices, tilted gravity
inline ref::Vehicle crooked() {
  ref::Vehicle b;
  b.rotors = {rotor(1, 2.0e-6, 3.0e-7, 10, 1500, 0.015, 5e-6, {0.11, -0.07, 0.01}),
              rotor(-1, 1.5e-6, 2.0e-7, -300, 1800, 0.02, 6e-6, {0.09, 0.12, -0.02}),
              rotor(1, 1.8e-6, 2.5e-7, 0, 2000, 0.025, 7e-6, {-0.10, 0.06, 0.03}),
              rotor(-1, 2.2e-6, 2.2e-7, 50, 1700, 0.03, 8e-6, {-0.12, -0.09, 0.02})};
  b.mass = 2.5;
  b.inertia = {ref::V{0.020, 0.002, -0.001}, ref::V{0.002, 0.030, 0.003}, ref::V{-0.001, 0.003, 0.045}};
  b.drag = 0.35;
  b.aero = {ref::V{0.004, 0.001, 0.0}, ref::V{-0.0005, 0.003, 0.0008}, ref::V{0.0002, 0.0, 0.006}};
  b.g = {0.4, -0.7, -9.0};
  return b;
}
// 2: light, tilted rotors, no air
inline ref::Vehicle tilted() {
  ref::Vehicle b = standard(0.5);
  for (int i = 0; i < 4; i++) {
    b.rotors[i].rot = ref::qmat(ref::rpy(0.2 + 0.1 * i, -0.3 + 0.15 * i, 0.7 * i));
    b.rotors[i].pos[2] = 0.02 * i - 0.01;
    b.rotors[i].tau = 0.04;
  }
  b.inertia = {ref::V{0.006, -0.0005, 0.0002}, ref::V{-0.0005, 0.004, 0.0001}, ref::V{0.0002, 0.0001, 0.008}};
  b.drag = 0;
  b.aero = diag(0, 0, 0);
  return b;
}
// 3: moon-like gravity upwards bias, strong drag, mass 4
inline ref::Vehicle heavy() {
  ref::Vehicle b = standard(4.0);
  for (int i = 0; i < 4; i++) { b.rotors[i].kf = 8e-6 + 1e-6 * i; b.rotors[i].hi = 3000; b.rotors[i].tau = 0.05; b.rotors[i].kt = 9e-7; }
  b.inertia = diag(0.05, 0.08, 0.11);
  b.drag = 1.7;
  b.aero = diag(0.02, 0.05, 0.01);
  b.g = {0, 0, -1.62};
  return b;
}
inline ref::Vehicle hexa() {
  ref::Vehicle b = standard(1.6);
  b.rotors.clear();
  for (int i = 0; i < 6; i++) {
    double a = M_PI / 3 * i;
    b.rotors.push_back(rotor(i % 2 ? -1 : 1, 1.9e-6 + 1e-7 * i, 2.5e-7 + 2e-8 * i, 5.0 * i, 1900 + 50 * i, 0.02 + 0.003 * i, 6e-6 + 1e-7 * i,
                             {0.2 * std::cos(a), 0.2 * std::sin(a), 0.01 * i}, ref::qmat(ref::rpy(0.05 * i, -0.04 * i, 0))));
  }
  b.inertia = {ref::V{0.02, 0.001, 0}, ref::V{0.001, 0.025, 0.002}, ref::V{0, 0.002, 0.04}};
  b.drag = 0.2;
  return b;
}
inline ref::Vehicle vehicle(int i) {
  switch (i) {
    case 0: return standard();
    case 1: return crooked();
    case 2: return tilted();
    default: return heavy();
  }
}
// True if all rotors point along the body z axis
template <typename P = double, int N = 4>
multirotor::model::MotorParams<P> motor(const ref::Rotor& r) {
  multirotor::model::MotorParams<P> m;
  m.motor_rotation_direction = r.dir;
  m.thrust_coefficient = (P)r.kf;
  m.torque_coefficient = (P)r.kt;
  m.min_speed = (P)r.lo;
  m.max_speed = (P)r.hi;
  m.time_constant = (P)r.tau;
  m.rotational_inertia = (P)r.inertia;
  m.pose.translation() = e3<P>(r.pos);
  m.pose.linear() = em<P>(r.rot);
  return m;
}
template <typename P = double, int N = 4>
multirotor::model::ModelParams<P, N> model_params(const ref::Vehicle& b) {
  multirotor::model::ModelParams<P, N> p;
  p.motors_params.clear();
  for (auto& r : b.rotors) p.motors_params.push_back(motor<P, N>(r));
  p.vehicle_mass = (P)b.mass;
  p.vehicle_inertia = em<P>(b.inertia);
  p.vehicle_drag_coefficient = (P)b.drag;
  p.vehicle_aero_moment_coefficient = em<P>(b.aero);
  p.gravity = e3<P>(b.g);
  return p;
}
template <typename P, int N>
ref::State get(const multirotor::state::State<P, N>& s) {
  ref::State r;
  r.p = v3(s.kinematics.position);
  r.v = v3(s.kinematics.linear_velocity);
  r.w = v3(s.kinematics.angular_velocity);
  r.a = v3(s.kinematics.linear_acceleration);
  r.dw = v3(s.kinematics.angular_acceleration);
  r.q = q4(s.kinematics.orientation);
  r.force = v3(s.dynamics.force);
  r.torque = v3(s.dynamics.torque);
  r.m = vn(s.actuators.motor_angular_velocity);
  r.dm = vn(s.actuators.motor_angular_acceleration);
  return r;
}
template <typename P = double, int N = 4>
multirotor::state::State<P, N> put(const ref::State& r) {
  multirotor::state::State<P, N> s;
  s.kinematics.position = e3<P>(r.p);
  s.kinematics.linear_velocity = e3<P>(r.v);
  s.kinematics.angular_velocity = e3<P>(r.w);
  s.kinematics.linear_acceleration = e3<P>(r.a);
  s.kinematics.angular_acceleration = e3<P>(r.dw);
  s.kinematics.orientation = eq<P>(r.q);
  s.dynamics.force = e3<P>(r.force);
  s.dynamics.torque = e3<P>(r.torque);
  for (int i = 0; i < N; i++) {
    s.actuators.motor_angular_velocity[i] = i < (int)r.m.size() ? (P)r.m[i] : 0;
    s.actuators.motor_angular_acceleration[i] = i < (int)r.dm.size() ? (P)r.dm[i] : 0;
  }
  return s;
}
template <typename A> std::vector<double> flat_q(const A& q) { return {q.w, q.x, q.y, q.z}; }
// rotations equal up to the sign of the quaternion
inline void near_q(mc::Run& r, const ref::Q& a, ref::Q e, const char* what, double tol = 1e-9) {
  if (a.w * e.w + a.x * e.x + a.y * e.y + a.z * e.z < 0) e = {-e.w, -e.x, -e.y, -e.z};
  r.near_v(flat_q(a), flat_q(e), 4, what, tol);
}
inline void near_state(mc::Run& r, const ref::State& a, const ref::State& e, double tol = 1e-9) {
  int n = (int)e.m.size();
  r.near_v(a.m, e.m, n, "motor speed", tol);
  r.near_v(a.dm, e.dm, n, "motor acceleration", tol);
  r.near_v(a.force, e.force, 3, "total force", tol);
  r.near_v(a.torque, e.torque, 3, "total torque", tol, 1e-3);
  r.near_v(a.a, e.a, 3, "linear acceleration", tol);
  r.near_v(a.dw, e.dw, 3, "angular acceleration", tol);
  r.near_v(a.p, e.p, 3, "position", tol);
  r.near_v(a.v, e.v, 3, "velocity", tol);
  near_q(r, a.q, e.q, "attitude", tol);
  r.near_v(a.w, e.w, 3, "body rates", tol);
}
inline void same_state(mc::Run& r, const ref::State& a, const ref::State& e) {
  int n = (int)e.m.size();
  r.same_v(a.p, e.p, 3, "position");
  r.same_v(flat_q(a.q), flat_q(e.q), 4, "attitude");
  r.same_v(a.v, e.v, 3, "velocity");
  r.same_v(a.w, e.w, 3, "body rates");
  r.same_v(a.a, e.a, 3, "linear acceleration");
  r.same_v(a.dw, e.dw, 3, "angular acceleration");
  r.same_v(a.force, e.force, 3, "total force");
  r.same_v(a.torque, e.torque, 3, "total torque");
  r.same_v(a.m, e.m, n, "motor speed");
  r.same_v(a.dm, e.dm, n, "motor acceleration");
}
inline void obs_state(mc::Run& r, const ref::State& s) {
  r.obs(s.p); r.obs(s.v); r.obs(s.w); r.obs(flat_q(s.q)); r.obs(s.a); r.obs(s.dw); r.obs(s.m);
}

// -------------------------------------------------------------- controllers
struct PidSpec {
  ref::V kp{}, ki{}, kd{}, aw{}, alpha{1, 1, 1}, up{}, lo{};
  bool reset = false, prop = false;
};
template <typename P = double>
pid_controller::PIDParams<P> pid_params(const PidSpec& s) {
  pid_controller::PIDParams<P> p;
  p.Kp_gains = e3<P>(s.kp); p.Ki_gains = e3<P>(s.ki); p.Kd_gains = e3<P>(s.kd);
  p.antiwindup_cte = e3<P>(s.aw); p.alpha = e3<P>(s.alpha);
  p.reset_integral_flag = s.reset; p.proportional_saturation_flag = s.prop;
  p.upper_output_saturation = e3<P>(s.up); p.lower_output_saturation = e3<P>(s.lo);
  return p;
}
inline void set_pid(ref::Pid3& p, const PidSpec& s) {  // keeps the memory
  for (int i = 0; i < 3; i++) {
    auto& a = p.ax[i];
    a.kp = s.kp[i]; a.ki = s.ki[i]; a.kd = s.kd[i]; a.aw = s.aw[i]; a.alpha = s.alpha[i]; a.reset_flag = s.reset;
  }
  p.prop = s.prop; p.up = s.up; p.lo = s.lo;
  p.sat = false;
  for (int i = 0; i < 3; i++) if (s.up[i] != 0 || s.lo[i] != 0) p.sat = true;
}
struct CtrlSpec {
  double mass = 1;
  ref::V g{0, 0, -9.81};
  ref::M kp_rot{}, inertia{};
  std::vector<std::array<double, 6>> alloc;
  PidSpec rate, pos, vel, traj;
};
// inverse allocation of a quadrotor whose rotors point up: rows of the inverse of [Fz Tx Ty Tz]
inline std::vector<std::array<double, 6>> quad_alloc(const ref::Vehicle& b) {
  double a[4][8] = {};
  for (int i = 0; i < 4; i++) {
    auto& r = b.rotors[i];
    a[0][i] = r.kf; a[1][i] = r.pos[1] * r.kf; a[2][i] = -r.pos[0] * r.kf; a[3][i] = r.dir * r.kt;
  }
  double sc[4];
  for (int i = 0; i < 4; i++) {  // scale rows, then Gauss-Jordan with pivoting
    sc[i] = 0;
    for (int j = 0; j < 4; j++) sc[i] = std::max(sc[i], std::fabs(a[i][j]));
    for (int j = 0; j < 4; j++) a[i][j] /= sc[i];
    a[i][4 + i] = 1;
  }
  for (int c = 0; c < 4; c++) {
    int p = c;
    for (int i = c; i < 4; i++) if (std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i;
    for (int j = 0; j < 8; j++) std::swap(a[c][j], a[p][j]);
    double d = a[c][c];
    for (int j = 0; j < 8; j++) a[c][j] /= d;
    for (int i = 0; i < 4; i++) if (i != c) {
      double f = a[i][c];
      for (int j = 0; j < 8; j++) a[i][j] -= f * a[c][j];
    }
  }
  std::vector<std::array<double, 6>> r(4);
  for (int i = 0; i < 4; i++) r[i] = {0, 0, a[i][4] / sc[0], a[i][5] / sc[1], a[i][6] / sc[2], a[i][7] / sc[3]};
  return r;
}
// gains of the repository's examples
inline CtrlSpec standard_ctrl(const ref::Vehicle& b) {
  CtrlSpec c;
  c.mass = b.mass; c.g = b.g; c.inertia = b.inertia; c.kp_rot = diag(20, 20, 8);
  c.alloc = quad_alloc(b);
  c.rate.kp = {9, 9, 9}; c.rate.ki = {3, 3, 3}; c.rate.kd = {0.3, 0.3, 0.3}; c.rate.alpha = {0.6, 0.6, 0.6}; c.rate.aw = {1, 1, 1};
  c.traj.kp = {10, 10, 10}; c.traj.ki = {0.005, 0.005, 0.005}; c.traj.kd = {6, 6, 6}; c.traj.alpha = {0, 0, 0}; c.traj.aw = {1, 1, 1}; c.traj.prop = true;
  c.vel.kp = {0.5, 0.5, 0.5};
  c.pos.kp = {0.5, 0.5, 0.5};
  return c;
}
// every gain different, every term of every loop active
inline CtrlSpec busy_ctrl(const ref::Vehicle& b) {
  CtrlSpec c = standard_ctrl(b);
  c.kp_rot = {ref::V{20, 0.5, -0.3}, ref::V{0.2, 17, 0.4}, ref::V{0.1, -0.6, 8}};
  c.rate.kp = {9, 7, 5}; c.rate.ki = {3, 2, 1.5}; c.rate.kd = {0.3, 0.2, 0.1}; c.rate.alpha = {0.6, 0.7, 0.8}; c.rate.aw = {1, 0.8, 0.6};
  c.traj.kp = {10, 8, 9}; c.traj.ki = {0.5, 0.4, 0.3}; c.traj.kd = {6, 5, 4}; c.traj.alpha = {0.5, 0.4, 0.3}; c.traj.aw = {1, 0.5, 0.7};
  c.vel.kp = {1.5, 1.2, 1.7}; c.vel.ki = {0.3, 0.2, 0.4}; c.vel.kd = {0.05, 0.04, 0.03}; c.vel.alpha = {0.5, 0.6, 0.7}; c.vel.aw = {2, 1.5, 1};
  c.pos.kp = {1.1, 0.9, 1.3}; c.pos.ki = {0.1, 0.2, 0.15}; c.pos.kd = {0.2, 0.1, 0.05}; c.pos.alpha = {0.9, 0.8, 0.7}; c.pos.aw = {1, 2, 0.5};
  c.pos.up = {3, 2.5, 2}; c.pos.lo = {-3, -2, -1.5};
  c.vel.up = {6, 5, 4}; c.vel.lo = {-5, -6, -3}; c.vel.prop = true;
  return c;
}
template <typename P = double, int N = 4>
multirotor::controller::ControllerParams<P, N> ctrl_params(const CtrlSpec& c) {
  multirotor::controller::ControllerParams<P, N> p;
  p.acro_controller_params.vehicle_mass = (P)c.mass;
  p.acro_controller_params.gravity = e3<P>(c.g);
  p.acro_controller_params.kp_rot = em<P>(c.kp_rot);
  p.indi_controller_params.inertia = em<P>(c.inertia);
  for (int i = 0; i < N; i++) for (int j = 0; j < 6; j++) p.indi_controller_params.mixer_matrix_inverse(i, j) = (P)c.alloc[i][j];
  p.indi_controller_params.pid_params = pid_params<P>(c.rate);
  p.position_controller_params.pid_params = pid_params<P>(c.pos);
  p.velocity_controller_params.pid_params = pid_params<P>(c.vel);
  p.trajectory_controller_params.pid_params = pid_params<P>(c.traj);
  return p;
}
inline void set_cascade(ref::Cascade& r, const CtrlSpec& c) {
  r.mass = c.mass; r.g = c.g; r.kp_rot = c.kp_rot; r.inertia = c.inertia; r.alloc = c.alloc;
  set_pid(r.rate, c.rate); set_pid(r.pos, c.pos); set_pid(r.vel, c.vel); set_pid(r.traj, c.traj);
}

// -------------------------------------------------------------- common lattices
inline std::vector<ref::Q> attitudes() {
  return {ref::Q{}, ref::rpy(0.4, 0, 0), ref::rpy(0, -0.7, 0), ref::rpy(0, 0, 2.5), ref::rpy(0.3, -0.5, 1.1),
          ref::rpy(-2.2, 0.6, -0.9), ref::rpy(M_PI, 0, 0.3), ref::rpy(0.1, 1.4, -2.9)};
}
inline std::string str(const ref::V& v) { return "(" + mc::num(v[0]) + " " + mc::num(v[1]) + " " + mc::num(v[2]) + ")"; }
inline std::string str(const std::vector<double>& v) {
  std::string s = "(";
  for (auto x : v) s += mc::num(x) + " ";
  s.back() = ')';
  return s;
}
inline std::string str(const ref::Q& q) { return str(flat_q(q)); }

}  // namespace qm
