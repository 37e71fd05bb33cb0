// C11: commanded motor speeds deliver exactly the requested thrust and torque.
#include "sim.hpp"
using namespace qm;
using ref::V;

struct Geo { ref::Vehicle b; };
static ref::Vehicle geometry(mc::Run& r) {
  ref::Vehicle b = standard();
  static const std::vector<double> xs = {0.08, 0.5, 0.013}, ks = {1.91e-6, 3e-5}, ts = {2.6e-7, 4e-6};
  int kind = r.choose(5, "layout");
  double x = r.pick(xs, "x"), y = r.pick(xs, "y"), kf = r.pick(ks, "kf"), kt = r.pick(ts, "kt");
  for (int i = 0; i < 4; i++) {
    auto& q = b.rotors[i];
    q.kf = kf; q.kt = kt;
    q.lo = -1e6; q.hi = 1e6;
    static const double sx[] = {1, 1, -1, -1}, sy[] = {-1, 1, 1, -1};
    static const double px[] = {1, 0, -1, 0}, py[] = {0, 1, 0, -1};
    q.pos = kind == 1 ? V{px[i] * x, py[i] * y, 0} : V{sx[i] * x, sy[i] * y, 0};
    if (kind >= 2) {  // unequal
      q.kf *= 1 + 0.15 * i;
      q.kt *= 1.3 - 0.2 * i;
      q.pos[0] *= 1 + 0.1 * i;
      q.pos[1] *= 1.2 - 0.15 * i;
      q.pos[2] = 0.02 * i - 0.03;
    }
    if (kind == 3) q.dir = -q.dir;
    if (kind == 4) q.rot = ref::qmat(ref::rpy(0, 0, 0.5 * i));  // turned about its own axis
  }
  return b;
}
template <typename P>
static Eigen::Matrix<P, 4, 6> inverse(const ref::Vehicle& b) {
  multirotor::model::Model<P, 4> m(model_params<P, 4>(b));
  auto mm = multirotor::model::Model<P, 4>::template compute_mixer_matrix<6>(m.get_motors());
  return indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(mm);
}
template <typename P>
static void exact_inverse(mc::Run& r) {
  ref::Vehicle b = geometry(r);
  auto inv = inverse<P>(b);
  r.step();
  const double tol = sizeof(P) == 4 ? 2e-4 : 1e-10;
  // inv * geometry == identity on rotors, geometry * inv == identity on Fz Tx Ty Tz
  double g[6][4];
  for (int i = 0; i < 4; i++) {
    auto& q = b.rotors[i];
    V f = q.kf * V{0, 0, 1}, t = ref::cross(q.pos, f) + V{0, 0, q.dir * q.kt};
    for (int k = 0; k < 3; k++) g[k][i] = f[k], g[3 + k][i] = t[k];
  }
  for (int i = 0; i < 4; i++) {
    r.same(inv(i, 0), 0, "column of Fx");
    r.same(inv(i, 1), 0, "column of Fy");
    for (int j = 0; j < 4; j++) {
      double s = 0, sc = 0;
      for (int k = 0; k < 6; k++) s += inv(i, k) * g[k][j], sc += std::fabs(inv(i, k) * g[k][j]);
      r.near(s, i == j, "inverse times mixer", tol, 1 + sc);
    }
  }
  for (int i = 2; i < 6; i++)
    for (int j = 2; j < 6; j++) {
      double s = 0, unit = 1;
      for (int k = 0; k < 4; k++) s += g[i][k] * inv(k, j);
      double gi = 0, gj = 0;
      for (int k = 0; k < 4; k++) gi = std::max(gi, std::fabs(g[i][k])), gj = std::max(gj, std::fabs(g[j][k]));
      unit = gi / gj;
      r.near(s, i == j, "mixer times inverse", tol * 10, 1 + unit);
    }
  auto qa = quad_alloc(b);
  for (int i = 0; i < 4; i++)
    for (int j = 2; j < 6; j++) {
      double big = 0;
      for (int k = 0; k < 4; k++) big = std::max(big, std::fabs(qa[k][j]));
      r.near(inv(i, j), qa[i][j], "allocation", tol * 10, big);
      r.obs(inv(i, j));
    }
  r.state();
}
// From requested thrust and rates to the wrench the model makes of the commanded speeds
struct Rig {
  ref::Vehicle b;
  multirotor::model::Model<double, 4> m;
  indi_controller::IndiController<double, 4> c;
  ref::Pid3 pid;
  static indi_controller::IndiControllerParams<double, 4> params(const ref::Vehicle& b, const PidSpec& p) {
    indi_controller::IndiControllerParams<double, 4> x;
    x.inertia = em(b.inertia);
    x.mixer_matrix_inverse = inverse<double>(b);
    x.pid_params = pid_params(p);
    return x;
  }
  Rig(const ref::Vehicle& v, const PidSpec& p) : b(v), m(model_params(v)), c(params(v, p)) { set_pid(pid, p); }
  void retune(const ref::Vehicle& v, const PidSpec& p) {
    b = v;
    m.update_params(model_params(v));
    c.update_params(params(v, p));
    set_pid(pid, p);
  }
  void call(mc::Run& r, const V& w, double thrust, const V& wd, double dt) {
    auto sp = c.acro_to_motor_angular_velocity(e3(w), thrust, e3(wd), dt);
    V al = pid.call(dt, wd - w);
    V tq = ref::mul(b.inertia, al) + ref::cross(wd, ref::mul(b.inertia, wd));
    r.step();
    r.say([&] { return "thrust " + mc::num(thrust) + " rates " + str(w) + " desired " + str(wd) + " -> speeds " + str(vn(sp)); });
    double st = 0, lever = 0;
    auto s = vn(sp);
    for (int i = 0; i < 4; i++) st += b.rotors[i].kf * s[i] * s[i], lever = std::max(lever, ref::norm(b.rotors[i].pos) + b.rotors[i].kt / b.rotors[i].kf);
    V f = v3(m.get_force_vector_thrust_by_motors(sp)), t = v3(m.get_torque_by_motors(sp, EN<double, 4>::Zero()));
    r.near_v(f, V{0, 0, thrust}, 3, "delivered thrust", 1e-9, st);
    r.near_v(t, tq, 3, "delivered torque", 1e-9, st * lever + ref::norm(tq));
    r.near_v(v3(c.get_desired_torque()), tq, 3, "reported torque", 1e-9, ref::norm(tq));
    r.near_v(v3(c.get_desired_thrust()), V{0, 0, thrust}, 3, "reported thrust");
    r.near_v(v3(c.get_desired_angular_acceleration()), al, 3, "reported angular acceleration");
    r.same_v(vn(c.get_motor_angular_velocity()), s, 4, "reported motor speeds");
    r.obs(s); r.state();
  }
};
static PidSpec pidspec(int k) {
  PidSpec p;
  p.kp = {9, 7, 5};
  if (k >= 1) { p.ki = {3, 2, 1.5}; p.kd = {0.3, 0.2, 0.1}; p.alpha = {0.6, 0.7, 0.8}; p.aw = {1, 0.8, 0.6}; }
  if (k == 2) { p.up = {30, 20, 10}; p.lo = {-25, -30, -5}; }
  return p;
}
static ref::M inertia(int k) {
  return k == 0 ? diag(0.0049, 0.0049, 0.0069) : k == 1 ? ref::M{V{0.02, 0.002, -0.001}, V{0.002, 0.03, 0.003}, V{-0.001, 0.003, 0.045}} : diag(1.5, 2.5, 0.3);
}
static void wrench(mc::Run& r) {
  ref::Vehicle b = geometry(r);
  b.inertia = inertia(r.choose(3, "inertia"));
  static const std::vector<double> th = {0, 9.81, 0.3, -4, 120};
  static const std::vector<V> ws = {{0, 0, 0}, {0.5, -1, 2}, {-6, 3, -4}};
  static const std::vector<V> ds = {{0, 0, 0}, {0.3, 0, 0}, {0, -2, 0}, {0, 0, 4}, {5, -7, -3}};
  Rig g(b, pidspec(1));
  V w = r.pick(ws, "rates"), d = r.pick(ds, "desired");
  double t = r.pick(th, "thrust");
  g.call(r, w, t, d, 0.01);
  g.call(r, 0.5 * w, t + 1, d, 0.005);
}
static void histories(mc::Run& r, int depth) {
  ref::Vehicle b = standard();
  b.inertia = inertia(1);
  int k = r.choose(3, "pid");
  Rig g(b, pidspec(k));
  for (int i = 0; i < depth; i++) {
    int o = r.choose(8);
    switch (o) {
      case 0: g.call(r, {0.1, 0.2, -0.3}, 9.81, {0, 0, 0}, 0.01); break;
      case 1: g.call(r, {-2, 1, 0.5}, 3, {1, -1, 2}, 0.01); break;
      case 2: g.call(r, {4, -5, 6}, 0, {-3, 3, -1}, 0.002); break;
      case 3: g.call(r, {0, 0, 0}, 25, {0, 0, 5}, 0.05); break;
      case 4: g.call(r, {0, 0, 0}, 9, {0, 0, 0}, 0.01); break;
      case 5: g.c.reset_controller(); g.pid.reset(); break;
      case 6: { ref::Vehicle v = standard(2); v.inertia = inertia(0); for (int q = 0; q < 4; q++) v.rotors[q].kf *= 1 + 0.1 * q, v.rotors[q].pos[0] *= 2; g.retune(v, pidspec(k)); break; }
      case 7: { ref::Vehicle v = standard(2); v.inertia = inertia(2); for (int q = 0; q < 4; q++) v.rotors[q].dir = -v.rotors[q].dir; g.retune(v, pidspec((k + 1) % 3)); break; }
    }
  }
}
// every number of geometry, inertia, thrust and rates unusual
static void unusual(mc::Run& r) {
  ref::Vehicle b = standard();
  static const double f[] = {1, 0.05, 0.5, 3, 40};
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  for (int i = 0; i < 4; i++) {
    auto& q = b.rotors[i];
    q.lo = -1e9; q.hi = 1e9;
    q.kf *= f[r.deviate(5)]; q.kt *= f[r.deviate(5)]; q.pos[0] *= f[r.deviate(5)]; q.pos[1] *= f[r.deviate(5)];
    q.pos[2] = r.wide(0, 20, "rotor height");
  }
  for (int i = 0; i < 3; i++) b.inertia[i][i] *= f[r.deviate(5)];
  int p = r.deviate(3);
  Rig g(b, pidspec(p == 0 ? 1 : p == 1 ? 0 : 2));
  for (int k = 0; k < 2; k++) {
    V w = v({0.5, -1, 2}, 1e3, "rates"), d = v({0.3, 0.2, -0.6}, 1e3, "desired rates");
    static const double dts[] = {0.01, 1e-5, 0.002, 0.5};
    double t = r.wide(9.81, 1e4, "thrust"), dt = dts[r.deviate(4)];
    g.call(r, w, t, d, dt);
  }
}
// In the simulator: what acro, velocity, position and trajectory mode command makes the wrench they report
static void simulated(mc::Run& r, int len) {
  ref::Vehicle b = standard();
  int kind = r.choose(3, "vehicle");
  if (kind) for (int i = 0; i < 4; i++) { auto& q = b.rotors[i]; q.kf *= 1 + 0.15 * i; q.kt *= 1.3 - 0.2 * i; q.pos[0] *= 1 + 0.1 * i; }
  b.inertia = inertia(kind);
  for (auto& q : b.rotors) { q.lo = -1e6; q.hi = 1e6; }
  CtrlSpec c = r.flag("all terms") ? busy_ctrl(b) : standard_ctrl(b);
  SimSpec sp = spec(b, c);
  sp.start = flight(r.choose(5, "start"), 4);
  auto par = sim_params(sp);
  par.controller_params.indi_controller_params.mixer_matrix_inverse = inverse<double>(b);
  Sim<> s(par);
  s.arm();
  int m = r.pick(std::vector<int>{0, 2, 3, 4, 5}, "mode");
  s.set_control_mode(cmode(m), ymode(r.choose(2, "yaw mode")));
  set_all_refs<double, 4>(s, r.choose(3, "references"));
  for (int k = 0; k < len; k++) {
    s.update_controller(0.01);
    auto sp2 = vn(s.get_actuation_motors_angular_velocity());
    auto& in = s.get_controller_const().get_indi_controller_const();
    V wd = v3(s.get_controller_const().get_desired_angular_velocity());
    V tq = ref::mul(b.inertia, v3(in.get_desired_angular_acceleration())) + ref::cross(wd, ref::mul(b.inertia, wd));
    double th = s.get_controller_const().get_desired_thrust(), st = 0;
    V f{}, t = ref::torque_body(b, sp2, std::vector<double>(4, 0));
    f = ref::thrust_body(b, sp2);
    for (int i = 0; i < 4; i++) st += b.rotors[i].kf * sp2[i] * sp2[i];
    r.near_v(f, V{0, 0, th}, 3, "thrust of the commanded speeds", 1e-9, st);
    r.near_v(t, tq, 3, "torque of the commanded speeds", 1e-9, st + ref::norm(tq));
    r.step();
    s.update_dynamics(0.01);
  }
  obs_all(r, s); r.state();
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("inverse", "all geometries: allocation is the inverse", 0, exact_inverse<double>);
    ex.explore("inverse_f", "the same in single precision", 0, exact_inverse<float>);
    ex.explore("wrench", "all geometries x inertias x thrusts x rates x desired rates", 0, wrench);
    ex.explore("unusual", "every number of geometry, inertia, thrust and rates unusual", ex.thorough ? 3 : 2, unusual);
    ex.explore("simulated", "3 vehicles x gains x 5 starts x 5 modes x yaw modes x references, flights of 200 steps", 0, [](mc::Run& r) { simulated(r, r.thorough() ? 2000 : 200); });
    int d = ex.thorough ? 6 : 5;
    ex.explore("histories", "all sequences of 8 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { histories(r, d); });
  });
}
