// C08: orientation stays a unit quaternion and integrates the body rates.
#include "sim.hpp"
using namespace qm;
using ref::Q;
using ref::V;

// exact turn by constant body rates
static Q turn(const Q& q, const V& w, double dt) {
  double n = ref::norm(w);
  if (n == 0) return ref::qunit(q);
  return ref::qmul(ref::qunit(q), ref::axis_angle(w, n * dt));
}
static double angle(const Q& a, const Q& b) {
  Q d = ref::qmul(ref::qconj(a), b);
  return 2 * std::atan2(std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z), std::fabs(d.w));
}
static const std::vector<V>& axes() {
  static const std::vector<V> a = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 2, 0.5}, {0.3, -0.4, -2}, {0, -1, 1}, {-1, -1, -1}};
  return a;
}
// rates in rad/s
static const std::vector<double>& rates() {
  static const std::vector<double> a = {0, 1e-6, 0.01, 0.7, 5, 30, 95, 400, 1e4, 1e6};
  return a;
}
static void judge(mc::Run& r, const Q& before, const Q& after, const V& w, double dt, double tol) {
  r.near(ref::qnorm(after), 1, "quaternion norm", tol);
  double x = ref::norm(w) * dt;
  if (x <= 1) {
    double e = angle(after, turn(before, w, dt));
    if (!(e <= x * x * x / 8 + 10 * tol)) r.fail("attitude turned wrongly: off by " + mc::num(e) + " rad for a turn of " + mc::num(x) + " rad");
  }
}
template <typename P>
static void dynamics_lattice(mc::Run& r) {
  static const auto atts = attitudes();
  static const std::vector<double> dts = {1e-5, 0.001, 0.01}, scales = {1, -1, 1.7, 1e-3};
  Q q = r.pick(atts, "attitude");
  double k = r.pick(scales, "scale");
  q = {q.w * k, q.x * k, q.y * k, q.z * k};
  V w = r.pick(rates(), "rate") * ref::unit(r.pick(axes(), "axis"));
  double dt = r.pick(dts, "dt");
  SimSpec s = spec(standard(), CtrlSpec());
  s.start.q = q;
  s.start.w = w;
  multirotor::dynamics::Dynamics<P, 4> d(dyn_params<P, 4>(s));
  double tol = sizeof(P) == 4 ? 1e-6 : 1e-10;
  for (int i = 0; i < 4; i++) {
    Q b = q4(d.get_state().kinematics.orientation);
    V wb = v3(d.get_state().kinematics.angular_velocity);
    d.process_euler_explicit(EN<P, 4>::Zero(), (P)dt);
    r.step();
    Q a = q4(d.get_state().kinematics.orientation);
    r.say([&] { return "rates " + str(wb) + " dt " + mc::num(dt) + " " + str(b) + " -> " + str(a); });
    if (!std::isfinite(ref::norm(wb)) || ref::norm(wb) > 1e12) break;  // the aerodynamic moment diverges
    judge(r, b, a, wb, dt, tol);
    r.obs(flat_q(a)); r.state();
  }
}
template <typename P>
static void odometry_lattice(mc::Run& r) {
  static const auto atts = attitudes();
  static const std::vector<double> dts = {1e-5, 0.001, 0.01, 0.1}, alphas = {1, 0.3};
  Q q = r.pick(atts, "attitude");
  V w = r.pick(rates(), "rate") * ref::unit(r.pick(axes(), "axis"));
  double dt = r.pick(dts, "dt");
  imu::InertialOdometry<P> o((P)r.pick(alphas, "alpha"), eq<P>(q));
  double tol = sizeof(P) == 4 ? 1e-6 : 1e-10;
  for (int i = 0; i < 4; i++) {
    Q b = q4(o.get_orientation());
    o.update(e3<P>(w), e3<P>({1, -2, 9}), (P)dt);
    r.step();
    Q a = q4(o.get_orientation());
    V wf = v3(o.get_angular_velocity());
    r.say([&] { return "rates " + str(wf) + " dt " + mc::num(dt) + " " + str(b) + " -> " + str(a); });
    judge(r, b, a, wf, dt, tol);
    r.obs(flat_q(a)); r.state();
  }
}
// attitudes given with any norm, and slow turns over long steps: unit norm after every step
template <typename P>
static void norms(mc::Run& r) {
  static const auto atts = attitudes();
  static const std::vector<double> ks = {1, -1, 1e-3, 0.9999, 1.0001, 50}, ws = {0, 1e-6, 1e-4, 9e-4, 0.02, 3}, dts = {1e-6, 0.01, 1, 100};
  Q q = r.pick(atts, "attitude");
  double k = r.pick(ks, "scale"), w = r.pick(ws, "rate"), dt = r.pick(dts, "dt");
  q = {q.w * k, q.x * k, q.y * k, q.z * k};
  V om = w * ref::unit(r.pick(axes(), "axis"));
  const double tol = sizeof(P) == 4 ? 1e-6 : 1e-12;
  imu::InertialOdometry<P> o((P)1, eq<P>(q));
  bool again = r.flag("set later");
  if (again) { o.update(e3<P>(om), e3<P>({1, -2, 9}), (P)0.01); o.set_initial_orientation(eq<P>(q)); }
  for (int i = 0; i < 3; i++) {
    o.update(e3<P>(om), e3<P>({1, -2, 9}), (P)dt);
    r.step();
    Q a = q4(o.get_orientation());
    r.near(a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z, 1, "norm of the odometry attitude", tol, 1);
    r.obs(flat_q(a)); r.state();
  }
  Q h = q4(multirotor::utils::get_quaternion_integrate(eq<P>(q), e3<P>(om), dt));
  r.near(h.w * h.w + h.x * h.x + h.y * h.y + h.z * h.z, 1, "norm of the integrated quaternion", tol, 1);
}
// Long histories: every placement of a few rate changes in a long run
static void long_run(mc::Run& r, int len, int gap) {
  static const auto atts = attitudes();
  ref::Vehicle veh = vehicle(r.choose(4, "vehicle"));
  SimSpec s = spec(veh, standard_ctrl(standard()));
  s.start.q = r.pick(atts, "attitude");
  s.start.w = {0.4, -0.3, 0.9};
  s.start.p = {0, 0, 100};
  s.imu_q = ref::rpy(0.1, 0, 0);
  s.odo_q = s.start.q;
  s.gyro_var = 0.01;
  Sim<double, 4> sim(sim_params(s));
  for (int i = 0; i < len; i++) {
    double dt = 0.01;
    if (i % gap == 0) {
      int d = r.deviate(6);
      if (d) {
        auto st = sim.get_state();
        static const V ws[] = {{20, 0, 0}, {0, 0, -60}, {-7, 9, 11}, {0, 0, 0}};
        if (d <= 4) st.kinematics.angular_velocity = e3(ws[d - 1]);
        if (d == 5) dt = 0.002;
        sim.get_dynamics().set_state(st);
      }
    }
    Q b = q4(sim.get_state().kinematics.orientation), ob = q4(sim.get_odometry().orientation);
    V w = v3(sim.get_state().kinematics.angular_velocity);
    if (!(ref::norm(w) < 1e12)) break;  // the explicit integration of the rates diverges
    sim.update_dynamics(dt);
    sim.update_imu(dt);
    sim.update_inertial_odometry(dt);
    r.step();
    if (!r.novel()) continue;
    Q a = q4(sim.get_state().kinematics.orientation), oa = q4(sim.get_odometry().orientation);
    judge(r, b, a, w, dt, 1e-10);
    judge(r, ob, oa, v3(sim.get_odometry().angular_velocity), dt, 1e-10);
    r.obs(flat_q(a)); r.obs(flat_q(oa)); r.state();
  }
}
// Drift over a very long run
static void drift(mc::Run& r, int len) {
  static const auto atts = attitudes();
  V w = r.pick(std::vector<double>{0.5, 12, 200}, "rate") * ref::unit(r.pick(axes(), "axis"));
  Q q = r.pick(atts, "attitude");
  imu::InertialOdometry<double> o(1.0, eq(q));
  ref::Vehicle v = standard();
  v.aero = diag(0, 0, 0);
  v.inertia = diag(1, 1, 1);
  SimSpec s = spec(v, CtrlSpec());
  s.start.q = q;
  s.start.w = w;
  multirotor::dynamics::Dynamics<double, 4> d(dyn_params(s));
  for (int i = 0; i < len; i++) {
    d.process_euler_explicit(EN<double, 4>::Zero(), 0.01);
    o.update(e3(w), e3({0, 0, 9.8}), 0.01);
    r.step();
    r.near(ref::qnorm(q4(d.get_state().kinematics.orientation)), 1, "quaternion norm", 1e-10);
    r.near(ref::qnorm(q4(o.get_orientation())), 1, "odometry quaternion norm", 1e-10);
  }
  r.obs(flat_q(q4(o.get_orientation()))); r.state();
}
template <typename P>
static void euler_check(mc::Run& r, const Q& q0, double k) {
  Eigen::Quaternion<P> q = eq<P>({q0.w * k, q0.x * k, q0.y * k, q0.z * k});
  P R = 99, Pi = 99, Y = 99;
  multirotor::state::internal::quaternion_to_Euler(q, R, Pi, Y);
  r.step();
  const bool f = sizeof(P) == 4;
  r.say([&] { return "quaternion " + str(q4(q)) + " -> " + mc::num(R) + " " + mc::num(Pi) + " " + mc::num(Y); });
  r.finite(R, "roll"); r.finite(Pi, "pitch"); r.finite(Y, "yaw");
  const double e = f ? 1e-6 : 1e-12;
  r.require(std::fabs(R) <= M_PI + e && std::fabs(Y) <= M_PI + e && std::fabs(Pi) <= M_PI / 2 + e, "angle out of range");
  ref::M m = ref::qmat(q4(q));
  double sp = ref::clamp(-m[2][0], -1, 1);
  double cosp = std::sqrt(m[0][0] * m[0][0] + m[1][0] * m[1][0]);
  double pitch = std::atan2(sp, cosp);
  r.near(Pi, pitch, "pitch", f ? 2e-3 : 1e-7);
  if (cosp > (f ? 1e-2 : 1e-6)) {
    double err = angle(ref::rpy(R, Pi, Y), ref::qunit(q4(q)));
    double lim = f ? 1e-5 / cosp : 1e-13 / cosp + 1e-9;
    if (!(err <= lim)) r.fail("roll pitch yaw do not reproduce the rotation: off by " + mc::num(err));
  }
  r.obs(R); r.obs(Pi); r.obs(Y); r.state();
}
static const std::vector<double>& angs() {
  static std::vector<double> a;
  if (a.empty()) {
    for (int i = -12; i <= 12; i++) a.push_back(i * M_PI / 12);
    for (double x : {1e-9, -1e-9, 1e-4, -1e-4, 3.1415, -3.1415, 1.57, -1.57, 0.3, 2.2, -0.77}) a.push_back(x);
  }
  return a;
}
static void euler(mc::Run& r) {
  double ro = r.pick(angs(), "roll"), y = r.pick(angs(), "yaw");
  static const std::vector<double> ps = {0, 0.5, -0.5, 1.2, -1.2, M_PI / 3, -M_PI / 4, 1.5, -1.5, 1.5707, -1.5707, M_PI / 2, -M_PI / 2, 1e-8, M_PI / 2 - 1e-9, -M_PI / 2 + 1e-9, 2.0, -2.5};
  double p = r.pick(ps, "pitch");
  static const std::vector<double> ks = {1, -1, 2.5, 1e-4, -3e3};
  double k = r.pick(ks, "scale");
  Q q = ref::rpy(ro, p, y);
  euler_check<double>(r, q, k);
  euler_check<float>(r, q, k);
}
// exact quaternions with coordinates in a small set, normalised or not
static void grid(mc::Run& r) {
  static const std::vector<double> c = {0, 1, -1, 0.5, -0.5, 2, M_SQRT1_2, -M_SQRT1_2};
  Q q{r.pick(c), r.pick(c), r.pick(c), r.pick(c)};
  if (ref::qnorm(q) == 0) return;
  euler_check<double>(r, q, 1);
  euler_check<float>(r, q, 1);
  euler_check<double>(r, ref::qunit(q), 1);
  euler_check<float>(r, ref::qunit(q), -1);
}
// quaternion integration helper
template <typename P>
static void helper(mc::Run& r) {
  static const auto atts = attitudes();
  Q q = r.pick(atts, "attitude");
  V w = r.pick(rates(), "rate") * ref::unit(r.pick(axes(), "axis"));
  double dt = r.pick(std::vector<double>{1e-5, 0.001, 0.01, 0.1}, "dt");
  Eigen::Quaternion<P> a = multirotor::utils::get_quaternion_integrate(eq<P>(q), e3<P>(w), dt);
  r.step();
  judge(r, q4(eq<P>(q)), q4(a), w, dt, sizeof(P) == 4 ? 1e-6 : 1e-10);
  r.obs(flat_q(q4(a))); r.state();
}
// attitudes, rates and steps of every size, through the simulator (vehicle and odometry)
static void unusual(mc::Run& r) {
  SimSpec s = spec(standard(), standard_ctrl(standard()));
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  s.start.w = v({0.4, -0.3, 0.9}, 100, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 10, "pitch");
  s.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  s.start.v = v({1, -2, 0.5}, 100, "velocity");
  s.start.p = v({1, -2, 50}, 1e8, "position");
  roll = r.wide(0, 10, "odometry roll"); pitch = r.wide(0, 10, "odometry pitch");
  s.odo_q = ref::rpy(roll, pitch, r.wide(0, 10, "odometry yaw"));
  static const double dts[] = {0.01, 1e-8, 0.0003, 0.005, 0.002};
  double dt = dts[r.deviate(5)];
  Sim<double, 4> sim(sim_params(s));
  for (int k = 0; k < 3; k++) {
    Q b = q4(sim.get_state().kinematics.orientation), ob = q4(sim.get_odometry().orientation);
    V w = v3(sim.get_state().kinematics.angular_velocity);
    sim.update_dynamics(dt);
    sim.update_imu(dt);
    sim.update_inertial_odometry(dt);
    r.step();
    Q a = q4(sim.get_state().kinematics.orientation), oa = q4(sim.get_odometry().orientation);
    judge(r, b, a, w, dt, 1e-10);
    judge(r, ob, oa, v3(sim.get_odometry().angular_velocity), dt, 1e-10);
    r.obs(flat_q(a)); r.obs(flat_q(oa)); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("dynamics", "8 attitudes x 4 scales x 10 rates x 7 axes x 3 steps", 0, dynamics_lattice<double>);
    ex.explore("dynamics_f", "the same in single precision", 0, dynamics_lattice<float>);
    ex.explore("odometry", "8 attitudes x 10 rates x 7 axes x 4 steps x 2 filters", 0, odometry_lattice<double>);
    ex.explore("odometry_f", "the same in single precision", 0, odometry_lattice<float>);
    ex.explore("norms", "8 attitudes x 6 scales x 6 rates x 4 steps x 7 axes", 0, norms<double>);
    ex.explore("norms_f", "the same in single precision", 0, norms<float>);
    ex.explore("helper", "quaternion integration helper on the lattice", 0, helper<double>);
    ex.explore("helper_f", "the same in single precision", 0, helper<float>);
    ex.explore("long_run", "runs of 300 steps with rate changes at any of 30 points", ex.thorough ? 3 : 2, [](mc::Run& r) { long_run(r, 300, r.thorough() ? 10 : 20); });
    int len = ex.thorough ? 50000 : 12000;
    ex.explore("drift", "runs of " + std::to_string(len) + " steps", 0, [len](mc::Run& r) { drift(r, len); });
    ex.explore("unusual", "every number of attitude, motion, odometry attitude and step unusual", ex.thorough ? 3 : 2, unusual);
    ex.explore("euler", "36 rolls x 18 pitches x 36 yaws x 5 scales, both precisions", 0, euler);
    ex.explore("grid", "8^4 quaternions, both precisions", 0, grid);
  });
}
