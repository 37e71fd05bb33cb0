// C23: results do not depend on precision, on rotors that produce nothing, or on the order of the rotors.
#include "sim.hpp"
#include "pidlib.hpp"
using namespace qm;
using ref::V;
// every component must exist in both precisions and for any number of rotors
template class multirotor::Simulator<float, 4>;
template class multirotor::Simulator<double, 4>;
template class multirotor::Simulator<float, 6>;
template class multirotor::Simulator<double, 8>;
template class multirotor::dynamics::Dynamics<float, 3>;
template class multirotor::model::Model<float, 1>;
template class multirotor::controller::Controller<float, 8>;
template class imu::IMU<float>;
template class imu::InertialOdometry<float>;
template class pid_controller::PID<float, 3>;
template class pid_controller::PID<double, 5>;
template class pid_1d_controller::PID<float>;

template <typename P, int N>
static void command(Sim<P, N>& s, int k) {
  switch (k) {
    case 1: s.set_control_mode(multirotor::POSITION); s.set_reference_position(e3<P>({1, -2, 3})); break;
    case 2: s.set_control_mode(multirotor::ACRO); s.set_reference_acro((P)11, e3<P>({0.6, -0.4, 0.5})); break;
    case 3: s.set_control_mode(multirotor::TRAJECTORY, multirotor::YawControlMode::RATE); s.set_reference_trajectory(e3<P>({1, 1, 3}), e3<P>({0.5, 0, 0}), e3<P>({0, 0.2, 0})); s.set_reference_yaw_rate((P)0.4); break;
    case 4: s.set_control_mode(multirotor::VELOCITY, multirotor::YawControlMode::RATE); s.set_reference_velocity(e3<P>({1, 1, -0.5})); s.set_reference_yaw_rate((P)1); break;
    case 5: s.set_control_mode(multirotor::HOVER); break;
    case 6: s.disarm(); break;
    case 7: s.arm(); break;
    default: break;
  }
}
template <typename P, int N>
static void turn(Sim<P, N>& s, double dt) {
  s.update_controller((P)dt);
  s.update_dynamics((P)dt);
  s.update_imu((P)dt);
  s.update_inertial_odometry((P)dt);
}
static ref::State start(int k, int n) {
  ref::State s = flight(k, n);
  return s;
}
static void close_motion(mc::Run& r, const ref::State& a, const ref::State& e, double tol) {
  r.near_v(a.p, e.p, 3, "position", tol); r.near_v(a.v, e.v, 3, "velocity", tol);
  near_q(r, a.q, e.q, "attitude", tol); r.near_v(a.w, e.w, 3, "body rates", tol);
}
static void full_motion(mc::Run& r, const ref::State& a, const ref::State& e, double tol) {
  close_motion(r, a, e, tol);
  r.near_v(a.a, e.a, 3, "linear acceleration", tol); r.near_v(a.dw, e.dw, 3, "angular acceleration", tol);
  r.near_v(a.force, e.force, 3, "force", tol); r.near_v(a.torque, e.torque, 3, "torque", tol);
}
// ---- single against double precision
template <int N>
static void precision(mc::Run& r, int len, const ref::Vehicle& b, const CtrlSpec& c) {
  SimSpec s = spec(b, c);
  s.start = start(r.choose(4, "start"), N);
  s.odo_q = s.start.q;
  s.alpha = 0.7;
  Sim<float, N> f(sim_params<float, N>(s));
  Sim<double, N> d(sim_params<double, N>(s));
  f.arm(); d.arm();
  int m = r.choose(6, "first command");
  f.set_refence_motors_angular_velocity(pattern<float, N>(1000, 40)); d.set_refence_motors_angular_velocity(pattern<double, N>(1000, 40));
  command(f, m); command(d, m);
  for (int k = 0; k < len; k++) {
    int c = r.deviate(8);
    command(f, c); command(d, c);
    double dt = 0.005;
    turn(f, dt); turn(d, dt);
    r.step();
    if (!r.novel()) continue;
    ref::State a = get<float, N>(f.get_state()), e = get<double, N>(d.get_state());
    r.say([&] { return "single: p " + str(a.p) + " w " + str(a.w) + " double: p " + str(e.p) + " w " + str(e.w); });
    close_motion(r, a, e, 5e-4);
    double ms = 0;
    for (double x : e.m) ms = std::max(ms, std::fabs(x));
    for (int i = 0; i < N; i++) r.near(a.m[i], e.m[i], "motor speed", 5e-3, ms + 100);
    Sensors x = sensors(f), y = sensors(d);
    r.near_v(x.gyro, y.gyro, 3, "gyroscope", 5e-4); r.near_v(x.accel, y.accel, 3, "accelerometer", 5e-3);
    r.near_v(x.v, y.v, 3, "odometry velocity", 5e-4); r.near_v(x.p, y.p, 3, "odometry position", 5e-4);
    Refs p = refs<float, N>(f), q = refs<double, N>(d);
    r.near(p.thrust, q.thrust, "thrust reference", 1e-5); r.near_v(p.pos, q.pos, 3, "position reference", 5e-4);
    r.near(std::sin(p.yaw), std::sin(q.yaw), "yaw reference", 5e-4); r.near(std::cos(p.yaw), std::cos(q.yaw), "yaw reference", 5e-4);
    obs_state(r, e); r.state();
  }
}
// ---- one call of every component, close to the resolution of single precision
static void one_step(mc::Run& r) {
  static const auto atts = attitudes();
  static const std::vector<V> vs = {{0, 0, 0}, {3, -2, 1}, {-12, 0.5, -9}}, ws = {{0, 0, 0}, {1, -2, 3}, {-20, 15, 8}};
  static const std::vector<double> dts = {0.01, 0.002, 0.03}, ms = {0, 900, 1500};
  ref::Vehicle b = r.flag("crooked") ? crooked() : standard();
  SimSpec s = spec(b, standard_ctrl(b));
  s.start.q = r.pick(atts, "attitude"); s.start.v = r.pick(vs, "velocity"); s.start.w = r.pick(ws, "rates");
  double m = r.pick(ms, "motors"), dt = r.pick(dts, "dt");
  s.start.m = {m, m + 10, m + 40, m + 20};
  multirotor::dynamics::Dynamics<float, 4> f(dyn_params<float, 4>(s));
  multirotor::dynamics::Dynamics<double, 4> d(dyn_params<double, 4>(s));
  f.process_euler_explicit(pattern<float, 4>(1000, 40), (float)dt, e3<float>({0.5, -0.4, 0.3}));
  d.process_euler_explicit(pattern<double, 4>(1000, 40), dt, e3<double>({0.5, -0.4, 0.3}));
  r.step();
  ref::State a = get<float, 4>(f.get_state()), e = get<double, 4>(d.get_state());
  double t = 5e-6;
  r.near_v(a.p, e.p, 3, "position after one step", t, 1); r.near_v(a.v, e.v, 3, "velocity after one step", t, 3);
  near_q(r, a.q, e.q, "attitude after one step", t);
  double dw = std::max(ref::norm(e.dw), 50.0), fo = std::max(ref::norm(e.force), 20.0), to = std::max(ref::norm(e.torque), 0.5);
  r.near_v(a.dw, e.dw, 3, "angular acceleration of one step", t, dw); r.near_v(a.w, e.w, 3, "body rates after one step", t, 1 + dw * dt);
  r.near_v(a.force, e.force, 3, "force of one step", t, fo); r.near_v(a.torque, e.torque, 3, "torque of one step", t, to); r.near_v(a.a, e.a, 3, "acceleration of one step", t, fo / b.mass);
  for (int i = 0; i < 4; i++) r.near(a.m[i], e.m[i], "motor speed after one step", t, 100), r.near(a.dm[i], e.dm[i], "motor acceleration of one step", t, 3e4);
  // sensors and odometry
  ref::Q mount = ref::rpy(0.3, -0.4, 1.9);
  imu::IMU<float> jf(0, 0, 0, 0, eq<float>(mount)); imu::IMU<double> jd(0, 0, 0, 0, eq<double>(mount));
  V sf = s.start.v + V{1, 2, 9};
  jf.update((float)dt, e3<float>(sf), e3<float>(s.start.w)); jd.update(dt, e3<double>(sf), e3<double>(s.start.w));
  r.near_v(v3(jf.get_measurement_gyro()), v3(jd.get_measurement_gyro()), 3, "gyroscope", t, 1 + ref::norm(s.start.w));
  r.near_v(v3(jf.get_measurement_accel()), v3(jd.get_measurement_accel()), 3, "accelerometer", t, 10);
  imu::InertialOdometry<float> of(0.6f, eq<float>(s.start.q)); imu::InertialOdometry<double> od(0.6, eq<double>(s.start.q));
  for (int k = 0; k < 3; k++) {
    of.update(e3<float>(s.start.w), e3<float>(sf), (float)dt); od.update(e3<double>(s.start.w), e3<double>(sf), dt);
    near_q(r, ref::Q{of.get_orientation().w(), of.get_orientation().x(), of.get_orientation().y(), of.get_orientation().z()},
           ref::Q{od.get_orientation().w(), od.get_orientation().x(), od.get_orientation().y(), od.get_orientation().z()}, "odometry attitude", t);
    r.near_v(v3(of.get_linear_velocity()), v3(od.get_linear_velocity()), 3, "odometry velocity", t); r.near_v(v3(of.get_position()), v3(od.get_position()), 3, "odometry position", t);
    r.near_v(v3(of.get_linear_acceleration()), v3(od.get_linear_acceleration()), 3, "odometry acceleration", t, 20); r.near_v(v3(of.get_angular_velocity()), v3(od.get_angular_velocity()), 3, "odometry rates", t, 1);
  }
  // control law
  multirotor::controller::Controller<float, 4> cf(ctrl_params<float, 4>(s.ctrl)); multirotor::controller::Controller<double, 4> cd(ctrl_params<double, 4>(s.ctrl));
  auto x = cf.compute_trajectory_control(e3<float>({1, 2, 3}), e3<float>(s.start.v), eq<float>(s.start.q).toRotationMatrix(), e3<float>(s.start.w), e3<float>({1.1, 1.8, 3.3}), e3<float>({0.3, -0.2, 0.1}), e3<float>({0.4, 0.1, -0.3}), 0.7f, (float)dt);
  auto y = cd.compute_trajectory_control(e3<double>({1, 2, 3}), e3<double>(s.start.v), eq<double>(s.start.q).toRotationMatrix(), e3<double>(s.start.w), e3<double>({1.1, 1.8, 3.3}), e3<double>({0.3, -0.2, 0.1}), e3<double>({0.4, 0.1, -0.3}), 0.7, dt);
  r.near_v(v3(cf.get_desired_linear_acceleration()), v3(cd.get_desired_linear_acceleration()), 3, "desired acceleration", t, 20);
  double th = cd.get_desired_thrust();
  if (th > 1e-2) {
    r.near(cf.get_desired_thrust(), th, "desired thrust", t, 100);
    r.near_v(v3(cf.get_desired_angular_velocity()), v3(cd.get_desired_angular_velocity()), 3, "desired body rates", 2e-5, 20);
    double top = 0;
    for (int i = 0; i < 4; i++) top = std::max(top, y[i] * y[i]);
    for (int i = 0; i < 4; i++) r.near(ref::ssq(x[i]), ref::ssq(y[i]), "square of the motor command", 1e-4, 1e5 + top);
  }
  obs_state(r, e); r.state();
}
// ---- PID
template <int D>
static void pids(mc::Run& r, int depth) {
  using Lf = Eigen::Matrix<float, D, 1>;
  using Ld = Eigen::Matrix<double, D, 1>;
  pid_controller::PIDParams<float, D> pf;
  pid_controller::PIDParams<double, D> pd;
  int lim = r.choose(3, "limits");
  for (int i = 0; i < D; i++) {
    auto set = [&](auto& x, auto& y, double v) { x[i] = (float)v; y[i] = v; };
    set(pf.Kp_gains, pd.Kp_gains, 1.3 + 0.7 * i); set(pf.Ki_gains, pd.Ki_gains, 0.9 - 0.2 * i); set(pf.Kd_gains, pd.Kd_gains, 0.11 + 0.05 * i);
    set(pf.alpha, pd.alpha, 0.31 + 0.1 * i);
    if (lim) { set(pf.antiwindup_cte, pd.antiwindup_cte, 0.23 + 0.1 * i); set(pf.upper_output_saturation, pd.upper_output_saturation, 1.07 + i); set(pf.lower_output_saturation, pd.lower_output_saturation, -0.77 - i); }
  }
  pf.proportional_saturation_flag = pd.proportional_saturation_flag = lim == 2;
  pid_controller::PID<float, D> f(pf);
  pid_controller::PID<double, D> d(pd);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(6);
    if (o == 5) { f.reset_controller(); d.reset_controller(); continue; }
    static const double es[] = {0.7, -1.9, 0.013, 45, -0.2};
    Ld e;
    for (int i = 0; i < D; i++) e[i] = es[o] * (1 - 0.37 * i);
    double dt = o == 3 ? 0.02 : 0.1;
    Lf x = f.compute_control((float)dt, Lf(e.template cast<float>()));
    Ld y = d.compute_control(dt, e);
    r.step();
    if (!r.novel()) continue;
    for (int i = 0; i < D; i++) r.near(x[i], y[i], "PID output", 2e-5, 5);
    r.obs(vn(y)); r.state();
  }
}
// ---- rotors that produce nothing
template <int N>
static void null_rotors(mc::Run& r, int len, bool around = false) {
  ref::Vehicle b4 = r.flag("crooked") ? crooked() : standard();
  CtrlSpec c4 = standard_ctrl(standard());
  std::vector<int> at;  // positions of the four rotors
  for (int i = 0, left = 4; i < N && left; i++) {
    bool must = N - i == left;
    if (must || r.flag("rotor here")) { at.push_back(i); left--; }
  }
  ref::Vehicle b = b4;
  CtrlSpec c = c4;
  b.rotors.assign(N, rotor(1, 0, 0, 0, 2000, 0.03, 0, {0.3, 0.2, 0.1}));
  for (int i = 0; i < N; i++) b.rotors[i].dir = i % 2 ? 1 : -1;
  c.alloc.assign(N, {0, 0, 0, 0, 0, 0});
  SimSpec s4 = spec(b4, c4), s = spec(b, c);
  int where = around ? 1 + r.choose(2, "floor, noise") : 0;
  if (where == 2) { s4.fnoise = s.fnoise = 0.3; s4.mnoise = s.mnoise = 0.02; s4.model_seed = s.model_seed = 4; s4.gyro_var = s.gyro_var = 0.02; s4.accel_walk = s.accel_walk = 0.1; s4.imu_seed = s.imu_seed = 9; }
  s4.start = start(r.choose(3, "start"), 4);
  s.start = s4.start;
  s.start.m.assign(N, 333);
  s.start.dm.assign(N, 0);
  auto ref4 = pattern(1000, 45);
  EN<double, N> refn = EN<double, N>::Constant(777);
  for (int i = 0; i < 4; i++) { b.rotors[at[i]] = b4.rotors[i]; c.alloc[at[i]] = c4.alloc[i]; s.start.m[at[i]] = s4.start.m[i]; refn[at[i]] = ref4[i]; }
  s.body = b; s.ctrl = c;
  Sim<double, 4> x(sim_params(s4));
  Sim<double, N> y(sim_params<double, N>(s));
  x.set_refence_motors_angular_velocity(ref4); y.set_refence_motors_angular_velocity(refn);
  if (where == 1) { x.enable_floor_collision(1); y.enable_floor_collision(1); }
  x.arm(); y.arm();
  int m = r.choose(5, "first command");
  command(x, m); command(y, m);
  for (int k = 0; k < len; k++) {
    int o = r.deviate(8);
    command(x, o); command(y, o);
    turn(x, 0.01); turn(y, 0.01);
    r.step();
    if (!r.novel()) continue;
    ref::State e = get<double, 4>(x.get_state()), a = get<double, N>(y.get_state());
    r.say([&] { return "4 rotors: p " + str(e.p) + " w " + str(e.w) + " more rotors: p " + str(a.p) + " w " + str(a.w); });
    full_motion(r, a, e, 1e-8);
    for (int i = 0; i < 4; i++) { r.near(a.m[at[i]], e.m[i], "motor speed", 1e-8); r.near(a.dm[at[i]], e.dm[i], "motor acceleration", 1e-8); }
    Sensors p = sensors(y), q = sensors(x);
    r.near_v(p.gyro, q.gyro, 3, "gyroscope", 1e-8); r.near_v(p.accel, q.accel, 3, "accelerometer", 1e-8); r.near_v(p.p, q.p, 3, "odometry", 1e-8);
    obs_state(r, a); r.state();
  }
}
// ---- order of the rotors
template <int N>
static void permuted(mc::Run& r, int len, const ref::Vehicle& b0, const CtrlSpec& c0, bool around = false) {
  std::vector<int> pool, perm;  // perm[i]: place of rotor i
  for (int i = 0; i < N; i++) pool.push_back(i);
  for (int i = 0; i < N; i++) {
    int k = N <= 4 || i < 2 ? r.choose((int)pool.size(), "next") : (int)pool.size() - 1;
    perm.push_back(pool[k]);
    pool.erase(pool.begin() + k);
  }
  SimSpec s0 = spec(b0, c0), s;
  int where = around ? 1 + r.choose(2, "floor, noise") : 0;
  if (where == 2) { s0.fnoise = 0.3; s0.mnoise = 0.02; s0.model_seed = 4; s0.gyro_var = 0.02; s0.accel_walk = 0.1; s0.imu_seed = 9; }
  s0.start = start(r.choose(3, "start"), N);
  for (int i = 0; i < N; i++) s0.start.m[i] += 17 * i;
  s = s0;
  auto ref0 = pattern<double, N>(1000, 45);
  EN<double, N> refp;
  for (int i = 0; i < N; i++) {
    s.body.rotors[perm[i]] = b0.rotors[i]; s.ctrl.alloc[perm[i]] = c0.alloc[i];
    s.start.m[perm[i]] = s0.start.m[i]; s.start.dm[perm[i]] = s0.start.dm[i]; refp[perm[i]] = ref0[i];
  }
  Sim<double, N> x(sim_params<double, N>(s0)), y(sim_params<double, N>(s));
  x.set_refence_motors_angular_velocity(ref0); y.set_refence_motors_angular_velocity(refp);
  if (where == 1) { x.enable_floor_collision(1); y.enable_floor_collision(1); }
  x.arm(); y.arm();
  int m = r.choose(5, "first command");
  command(x, m); command(y, m);
  for (int k = 0; k < len; k++) {
    int o = r.deviate(8);
    command(x, o); command(y, o);
    turn(x, 0.01); turn(y, 0.01);
    r.step();
    if (!r.novel()) continue;
    ref::State e = get<double, N>(x.get_state()), a = get<double, N>(y.get_state());
    r.say([&] { return "original: p " + str(e.p) + " w " + str(e.w) + " permuted: p " + str(a.p) + " w " + str(a.w); });
    full_motion(r, a, e, 1e-7);
    Refs p = refs<double, N>(x), q = refs<double, N>(y);
    for (int i = 0; i < N; i++) {
      r.near(a.m[perm[i]], e.m[i], "motor speed", 1e-7); r.near(a.dm[perm[i]], e.dm[i], "motor acceleration", 1e-6);
      r.near(q.act[perm[i]], p.act[i], "motor command", 1e-6);
    }
    obs_state(r, a); r.state();
  }
}
// ---- one step of the dynamics with numbers of every sign and size: null rotors and reordering change nothing
template <int N>
static void unusual(mc::Run& r) {
  ref::Vehicle b = crooked();
  for (auto& q : b.rotors) {
    q.kf = std::fabs(r.wide(q.kf * 1e6, 1e3, "thrust coefficient")) * 1e-6; q.kt = std::fabs(r.wide(q.kt * 1e7, 1e3, "torque coefficient")) * 1e-7;
    q.inertia = std::fabs(r.wide(q.inertia * 1e6, 1e3, "rotor inertia")) * 1e-6;
    for (auto& x : q.pos) x = r.wide(x, 100, "rotor position");
  }
  SimSpec s = spec(b, CtrlSpec()), z;
  s.start = flight(2, 4);
  for (int i = 0; i < 3; i++) { s.start.v[i] = r.wide(s.start.v[i], 1e3, "velocity"); s.start.w[i] = r.wide(s.start.w[i], 100, "rate"); }
  EN<double, 4> c4 = pattern<double, 4>(1000, 45);
  for (int i = 0; i < 4; i++) { s.start.m[i] = r.wide(s.start.m[i], 1e4, "motor"); c4[i] = r.wide(c4[i], 1e4, "command"); }
  z = s;
  z.body.rotors.assign(N, rotor(1, 0, 0, 0, 2000, 0.03, 0, {0.3, 0.2, 0.1}));
  z.start.m.assign(N, 333);
  z.start.dm.assign(N, 0);
  EN<double, N> cn = EN<double, N>::Constant(777);
  int sh = r.choose(N, "shift"), rev = r.choose(2, "reversed");
  auto at = [&](int i) { return ((rev ? N - 1 - i : i) + sh) % N; };
  for (int i = 0; i < 4; i++) { z.body.rotors[at(i)] = s.body.rotors[i]; z.start.m[at(i)] = s.start.m[i]; cn[at(i)] = c4[i]; }
  multirotor::dynamics::Dynamics<double, 4> x(dyn_params<double, 4>(s));
  multirotor::dynamics::Dynamics<double, N> y(dyn_params<double, N>(z));
  for (int k = 0; k < 2; k++) {
    x.process_euler_explicit(c4, 0.01); y.process_euler_explicit(cn, 0.01);
    r.step();
    ref::State e = get<double, 4>(x.get_state()), a = get<double, N>(y.get_state());
    double fo = ref::norm(e.force) + 100, to = ref::norm(e.torque) + 10;
    for (double m : e.m) fo += 1e-3 * m * m, to += 1e-2 * m * m;
    double dw = 300 * to;
    r.near_v(a.force, e.force, 3, "force", 1e-9, fo); r.near_v(a.torque, e.torque, 3, "torque", 1e-9, to);
    r.near_v(a.v, e.v, 3, "velocity", 1e-9, 1 + 0.01 * fo); r.near_v(a.w, e.w, 3, "body rates", 1e-9, 1 + 0.01 * dw); r.near_v(a.dw, e.dw, 3, "angular acceleration", 1e-9, dw);
    r.near_v(a.p, e.p, 3, "position", 1e-9, 1 + fo);
    for (int i = 0; i < 4; i++) { r.near(a.m[at(i)], e.m[i], "motor speed", 1e-9); r.near(a.dm[at(i)], e.dm[i], "motor acceleration", 1e-9, 1e3); }
    if (ref::norm(e.w) > 1e3) return;
    obs_state(r, e); r.state();
  }
}
// ---- scalar PID
static void pid_scalar(mc::Run& r, int depth) {
  Conf c(1);
  c.kp[0] = 1.3; c.ki[0] = 0.9; c.kd[0] = 0.11; c.alpha[0] = 0.31;
  int lim = r.choose(3, "limits");
  if (lim) { c.aw[0] = 0.23; c.up[0] = 1.07; c.lo[0] = -0.77; }
  c.reset = false;  // the reset flag is discontinuous at the limit: rounding decides it
  SPid<float> f(c);
  SPid<double> d(c);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(7);
    if (o == 5) { f.reset(); d.reset(); continue; }
    static const double es[] = {0.7, -1.9, 0.013, 45, -0.2, 0, 3};
    double dt = o == 3 ? 0.02 : 0.1;
    auto x = o == 6 ? f.call(dt, {es[o]}, {0.4}) : f.call(dt, {es[o]}), y = o == 6 ? d.call(dt, {es[o]}, {0.4}) : d.call(dt, {es[o]});
    r.step();
    if (!r.novel()) continue;
    r.near(x[0], y[0], "PID output", 2e-5, 5);
    r.obs(y); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    int len = t ? 60 : 30, d = t ? 2 : 1;
    ref::Vehicle st = standard();
    ref::Vehicle cr = crooked();
    CtrlSpec c = standard_ctrl(st);
    ref::Vehicle hx = hexa();
    CtrlSpec h = c;
    h.alloc.clear();
    for (int i = 0; i < 6; i++) h.alloc.push_back({1e3 * i, -2e3 * i, 9e4 + 3e3 * i, 1e6 * (i % 3 - 1), 8e5 * (i % 2 ? 1 : -1), 4e5 * (i % 2 ? -1 : 1)});
    ex.explore("precision", "4 starts x 6 commands, flights with commands at any moment, single against double", d, [=](mc::Run& r) { precision<4>(r, len, st, c); });
    ex.explore("precision_crooked", "the same, crooked vehicle", 1, [=](mc::Run& r) { precision<4>(r, 20, cr, c); });
    ex.explore("precision_hexa", "the same, six rotors", 1, [=](mc::Run& r) { precision<6>(r, 20, hx, h); });
    ex.explore("one_step", "vehicles x attitudes x velocities x rates x motors x steps, every component once, single against double", 0, one_step);
    ex.explore("pid3", "all sequences of 6 calls, 3 axes, single against double", 0, [t](mc::Run& r) { pids<3>(r, t ? 6 : 5); });
    ex.explore("pid_scalar", "all sequences of 7 calls, scalar PID", 0, [](mc::Run& r) { pid_scalar(r, 5); });
    int bu = t ? 3 : 2;
    ex.explore("unusual_4", "reordered, any " + std::to_string(bu) + " numbers of unusual sign or size", bu, unusual<4>);
    ex.explore("unusual_6", "null rotors, any " + std::to_string(bu) + " numbers of unusual sign or size", t ? 2 : 1, unusual<6>);
    ex.explore("null6_around", "2 null rotors with floor or noise", 0, [=](mc::Run& r) { null_rotors<6>(r, 60, true); });
    ex.explore("permuted_around", "all 24 orders with floor or noise", t ? 1 : 0, [=](mc::Run& r) { permuted<4>(r, 60, cr, c, true); });
    ex.explore("pid1", "all sequences of 6 calls, 1 axis", 0, [](mc::Run& r) { pids<1>(r, 5); });
    ex.explore("null5", "all places of 1 null rotor x starts x commands", d, [=](mc::Run& r) { null_rotors<5>(r, 20); });
    ex.explore("null6", "all places of 2 null rotors x starts x commands", 1, [=](mc::Run& r) { null_rotors<6>(r, 20); });
    ex.explore("null8", "all places of 4 null rotors x starts x commands", t ? 1 : 0, [=](mc::Run& r) { null_rotors<8>(r, 20); });
    ex.explore("permuted", "all 24 orders x starts x commands", d, [=](mc::Run& r) { permuted<4>(r, 20, cr, c); });
    ex.explore("permuted6", "orders of six rotors", 1, [=](mc::Run& r) { permuted<6>(r, 16, hx, h); });
    ex.explore("permuted3", "all orders of three rotors", 1, [=](mc::Run& r) {
      ref::Vehicle b = cr;
      b.rotors.pop_back();
      CtrlSpec q = c;
      q.alloc.pop_back();
      permuted<3>(r, 16, b, q);
    });
  });
}
