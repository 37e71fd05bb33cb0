// Independent reference mathematics: plain arrays, no Eigen, nothing from the code under test.
#pragma once
#include <array>
#include <cmath>
#include <vector>

namespace ref {

using V = std::array<double, 3>;
using M = std::array<V, 3>;  // rows
struct Q {
  double w = 1, x = 0, y = 0, z = 0;
};

inline V operator+(const V& a, const V& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V operator-(const V& a, const V& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V operator*(double s, const V& a) { return {s * a[0], s * a[1], s * a[2]}; }
inline V operator*(const V& a, double s) { return s * a; }
inline V operator/(const V& a, double s) { return {a[0] / s, a[1] / s, a[2] / s}; }
inline double dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(const V& a, const V& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline double norm(const V& a) { return std::sqrt(dot(a, a)); }
inline V unit(const V& a) {
  double n = norm(a);
  return n > 0 ? a / n : a;
}
inline V mul(const M& m, const V& v) { return {dot(m[0], v), dot(m[1], v), dot(m[2], v)}; }
inline M mul(const M& a, const M& b) {
  M r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j];
  return r;
}
inline M tr(const M& a) {
  M r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = a[j][i];
  return r;
}
inline M sub(const M& a, const M& b) {
  M r{};
  for (int i = 0; i < 3; i++) r[i] = a[i] - b[i];
  return r;
}
inline double det(const M& m) { return dot(m[0], cross(m[1], m[2])); }
inline V solve(const M& m, const V& b) {  // Cramer
  M t  = tr(m);
  double d = dot(t[0], cross(t[1], t[2]));
  return {dot(b, cross(t[1], t[2])) / d, dot(t[0], cross(b, t[2])) / d, dot(t[0], cross(t[1], b)) / d};
}
inline Q qmul(const Q& a, const Q& b) {
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline double qnorm(const Q& q) { return std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); }
inline Q qunit(const Q& q) {
  double n = qnorm(q);
  return {q.w / n, q.x / n, q.y / n, q.z / n};
}
inline Q qconj(const Q& q) { return {q.w, -q.x, -q.y, -q.z}; }
inline M qmat(const Q& q0) {  // body to world
  Q q = qunit(q0);
  return {V{1 - 2 * (q.y * q.y + q.z * q.z), 2 * (q.x * q.y - q.w * q.z), 2 * (q.x * q.z + q.w * q.y)},
          V{2 * (q.x * q.y + q.w * q.z), 1 - 2 * (q.x * q.x + q.z * q.z), 2 * (q.y * q.z - q.w * q.x)},
          V{2 * (q.x * q.z - q.w * q.y), 2 * (q.y * q.z + q.w * q.x), 1 - 2 * (q.x * q.x + q.y * q.y)}};
}
inline V rot(const Q& q, const V& v) { return mul(qmat(q), v); }
inline V rotinv(const Q& q, const V& v) { return mul(tr(qmat(q)), v); }
inline Q axis_angle(V a, double ang) {
  a = unit(a);
  double s = std::sin(ang / 2);
  return {std::cos(ang / 2), s * a[0], s * a[1], s * a[2]};
}
inline Q rpy(double r, double p, double y) {
  return qmul(axis_angle({0, 0, 1}, y), qmul(axis_angle({0, 1, 0}, p), axis_angle({1, 0, 0}, r)));
}
inline double yaw_of(const Q& q) {
  M m = qmat(q);
  return std::atan2(m[1][0], m[0][0]);
}
// q + 0.5 q (x) (0, w) dt, normalised
inline Q qstep(const Q& q, const V& w, double dt) {
  Q d = qmul(q, Q{0, w[0], w[1], w[2]});
  Q r{q.w + 0.5 * dt * d.w, q.x + 0.5 * dt * d.x, q.y + 0.5 * dt * d.y, q.z + 0.5 * dt * d.z};
  return qunit(r);
}
inline double ssq(double x) { return x < 0 ? -x * x : x * x; }
inline double ssqrt(double x) { return x < 0 ? -std::sqrt(-x) : std::sqrt(x); }
inline double clamp(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

// ------------------------------------------------------------------ vehicle
struct Rotor {
  int dir = 1;
  double kf = 0, kt = 0, lo = 0, hi = 0, tau = 1, inertia = 0;
  V pos{};
  M rot{V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}};
};
struct Vehicle {
  std::vector<Rotor> rotors;
  double mass = 1;
  M inertia{};
  double drag = 0;
  M aero{};
  V g{0, 0, -9.81};
};
struct State {
  V p{}, v{}, w{}, a{}, dw{}, force{}, torque{};
  Q q;
  std::vector<double> m, dm;
};

inline V thrust_body(const Vehicle& b, const std::vector<double>& m) {
  V f{};
  for (size_t i = 0; i < b.rotors.size(); i++)
    f = f + b.rotors[i].kf * ssq(m[i]) * mul(b.rotors[i].rot, V{0, 0, 1});
  return f;
}
inline V torque_body(const Vehicle& b, const std::vector<double>& m, const std::vector<double>& dm) {
  V t{};
  for (size_t i = 0; i < b.rotors.size(); i++) {
    const Rotor& r = b.rotors[i];
    V ax           = mul(r.rot, V{0, 0, 1});
    t = t + cross(r.pos, (r.kf * ssq(m[i])) * ax) + (r.dir * (r.kt * ssq(m[i]) + r.inertia * dm[i])) * ax;
  }
  return t;
}
// One explicit Euler step of the documented model
inline State step(const Vehicle& b, const State& s, const std::vector<double>& cmd, double dt, const V& ext,
                  const V& fnoise = V{}, const V& mnoise = V{}) {
  State n = s;
  size_t k = b.rotors.size();
  n.dm.resize(k);
  n.m.resize(k);
  for (size_t i = 0; i < k; i++) {
    const Rotor& r = b.rotors[i];
    n.dm[i]        = (clamp(cmd[i], r.lo, r.hi) - s.m[i]) / r.tau;
    n.m[i]         = clamp(s.m[i] + n.dm[i] * dt, r.lo, r.hi);
  }
  V drag{};
  for (int i = 0; i < 3; i++) drag[i] = -b.drag * s.v[i] * std::fabs(s.v[i]);
  n.force  = rot(s.q, thrust_body(b, s.m)) + b.mass * b.g + drag + ext + fnoise;
  n.a      = n.force / b.mass;
  n.torque = torque_body(b, s.m, n.dm) - norm(s.w) * mul(b.aero, s.w) - cross(s.w, mul(b.inertia, s.w)) + mnoise;
  n.dw     = solve(b.inertia, n.torque);
  n.p      = s.p + s.v * dt;
  n.v      = s.v + n.a * dt;
  n.q      = qstep(s.q, s.w, dt);
  n.w      = s.w + n.dw * dt;
  return n;
}

// ------------------------------------------------------------------ PID (one axis)
struct Pid1 {
  double kp = 0, ki = 0, kd = 0, aw = 0, alpha = 1;
  bool reset_flag = false, sat = false;
  double up = 0, lo = 0;
  // memory
  bool first = true;
  double sum = 0, prev = 0, filt = 0;
  // outputs
  double P = 0, I = 0, D = 0, raw = 0, out = 0;
  void reset() { first = true; }
  void integrate(double dt, double e) {
    if (first) {
      first = false;
      sum = filt = 0;
      prev = e;
    }
    P = kp * e;
    if (reset_flag && std::fabs(sum) >= aw && std::signbit(sum) != std::signbit(e)) sum = 0;
    sum += e * dt;
    if (aw != 0) sum = clamp(sum, -aw, aw);
    I = ki * sum;
  }
  void finish(double e) {
    raw  = P + I + D;
    out  = sat ? clamp(raw, lo, up) : raw;
    prev = e;
  }
  double call(double dt, double e) {
    integrate(dt, e);
    filt = alpha * (e - prev) / dt + (1 - alpha) * filt;
    D    = kd * filt;
    finish(e);
    return out;
  }
  double call(double dt, double e, double de) {
    integrate(dt, e);
    D = kd * de;
    finish(e);
    return out;
  }
};
// Vector PID: three scalar PIDs, plus proportional saturation of the vector
struct Pid3 {
  std::array<Pid1, 3> ax;
  bool sat = false, prop = false;
  V up{}, lo{}, raw{}, out{};
  void reset() { for (auto& a : ax) a.reset(); }
  V sat_out() {
    V o = raw;
    if (!sat) return o;
    if (!prop) {
      for (int i = 0; i < 3; i++) o[i] = clamp(o[i], lo[i], up[i]);
      return o;
    }
    double f = 1;  // the largest factor that brings every axis into its limits
    for (int i = 0; i < 3; i++) {
      if (raw[i] > up[i]) f = std::min(f, up[i] / raw[i]);
      if (raw[i] < lo[i]) f = std::min(f, lo[i] / raw[i]);
    }
    return f * o;
  }
  V call(double dt, const V& e) {
    for (int i = 0; i < 3; i++) ax[i].call(dt, e[i]), raw[i] = ax[i].raw;
    return out = sat_out();
  }
  V call(double dt, const V& e, const V& de) {
    for (int i = 0; i < 3; i++) ax[i].call(dt, e[i], de[i]), raw[i] = ax[i].raw;
    return out = sat_out();
  }
};

// ------------------------------------------------------------------ controller cascade
struct Cascade {
  double mass = 0;
  V g{0, 0, -9.81};
  M kp_rot{};
  M inertia{};
  std::vector<std::array<double, 6>> alloc;  // rows: rotor, columns: Fx Fy Fz Tx Ty Tz
  Pid3 rate, pos, vel, traj;
  // set-points of the last call
  V sp_pos{}, sp_vel{}, sp_acc{}, sp_rate{};
  double sp_thrust = 0;
  double margin    = 1e9;  // distance of the last call from the thrust cut-off
  std::vector<double> sp_motor;
  void reset() { rate.reset(); pos.reset(); vel.reset(); traj.reset(); }

  std::vector<double> acro(const V& w, double thrust, const V& wd, double dt) {
    sp_rate = wd;
    sp_thrust = thrust;
    V alpha = rate.call(dt, wd - w);
    V tq    = mul(inertia, alpha) + cross(wd, mul(inertia, wd));
    double d[6] = {0, 0, thrust, tq[0], tq[1], tq[2]};
    sp_motor.assign(alloc.size(), 0);
    for (size_t i = 0; i < alloc.size(); i++) {
      double s = 0;
      for (int k = 0; k < 6; k++) s += alloc[i][k] * d[k];
      sp_motor[i] = ssqrt(s);
    }
    return sp_motor;
  }
  std::pair<double, V> attitude(const V& acc, const M& R, double yaw) {
    V f  = mass * (acc - g);
    V z  = unit(f);
    V xc{std::cos(yaw), std::sin(yaw), 0};
    V y  = unit(cross(z, xc));
    V x  = unit(cross(y, z));
    M Rd{V{x[0], y[0], z[0]}, V{x[1], y[1], z[1]}, V{x[2], y[2], z[2]}};
    M E = sub(mul(tr(Rd), R), mul(tr(R), Rd));
    V e{0.5 * E[2][1], 0.5 * E[0][2], 0.5 * E[1][0]};
    V w = -1.0 * mul(kp_rot, e);
    double t = dot(f, unit(V{R[0][2], R[1][2], R[2][2]}));
    margin = std::fabs(t);
    if (t < 0) return {0.0, V{}};
    return {t, w};
  }
  std::vector<double> accel(const M& R, const V& w, const V& acc, double yaw, double dt) {
    sp_acc = acc;
    auto r = attitude(acc, R, yaw);
    return acro(w, r.first, r.second, dt);
  }
  std::vector<double> velocity(const V& v, const M& R, const V& w, const V& vd, double yaw, double dt) {
    sp_vel = vd;
    return accel(R, w, vel.call(dt, vd - v), yaw, dt);
  }
  std::vector<double> position(const V& p, const M& R, const V& v, const V& w, const V& pd, double yaw, double dt) {
    sp_pos = pd;
    V vd   = pos.call(dt, pd - p);
    return velocity(v, R, w, vd, yaw, dt);
  }
  std::vector<double> trajectory(const V& p, const V& v, const M& R, const V& w, const V& pd, const V& vd, const V& ad,
                                 double yaw, double dt) {
    sp_pos = pd;
    sp_vel = vd;
    return accel(R, w, traj.call(dt, pd - p, vd - v) + ad, yaw, dt);
  }
};

}  // namespace ref
