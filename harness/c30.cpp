// C30: closed loop flights reach and hold their reference. Gains of the repository's example configuration.
#include "sim.hpp"
using namespace qm;
using ref::V;
static CtrlSpec example(const ref::Vehicle& b) {
  CtrlSpec c = standard_ctrl(b);
  c.rate.prop = true;
  c.vel.kp = {6, 6, 10}; c.vel.ki = {1, 1, 2}; c.vel.kd = {0.4, 0.4, 0}; c.vel.alpha = {0.05, 0.05, 0}; c.vel.aw = {1, 1, 1};
  c.vel.up = {4, 4, 4}; c.vel.lo = {-4, -4, -4}; c.vel.prop = true;
  c.pos.kp = {1, 1, 1}; c.pos.ki = {0.01, 0.01, 0.01}; c.pos.alpha = {0.1, 0.1, 0}; c.pos.aw = {0.5, 0.5, 0.5};
  c.pos.up = {10, 10, 10}; c.pos.lo = {-10, -10, -10}; c.pos.prop = true;
  return c;
}
static double wrap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
template <typename P>
static void sane(mc::Run& r, const Sim<P, 4>& s) {
  auto& k = s.get_state().kinematics;
  P sum = k.position.sum() + k.linear_velocity.sum() + k.angular_velocity.sum() + k.orientation.coeffs().sum() + k.linear_acceleration.sum() + k.angular_acceleration.sum() +
          s.get_state().actuators.motor_angular_velocity.sum() + s.get_actuation_motors_angular_velocity().sum();
  r.require(std::isfinite((double)sum), "a state or command is not finite");
}
struct Goal { V p{}, v{}, w{}; double yaw = 0, rate = 0; bool by_rate = false; };
// worst errors over the last part of a flight
struct Err {
  double p = 0, v = 0, w = 0, yaw = 0, rate = 0;
  template <typename P>
  void take(const Sim<P, 4>& s, const Goal& g) {
    ref::State x = get<P, 4>(s.get_state());
    p = std::max(p, ref::norm(x.p - g.p)); v = std::max(v, ref::norm(x.v - g.v)); w = std::max(w, ref::norm(x.w - g.w));
    yaw = std::max(yaw, wrap(ref::yaw_of(x.q) - g.yaw));
    V up = ref::rotinv(x.q, {0, 0, 1});
    rate = std::max(rate, std::fabs(ref::dot(x.w, up) - g.rate));
  }
};
template <typename P>
static void fly(Sim<P, 4>& s, mc::Run& r, double dt, double T, const Goal* g = nullptr, Err* e = nullptr, double hold = 1) {
  int n = (int)std::lround(T / dt), from = (int)std::lround((T - hold) / dt);
  for (int k = 0; k < n; k++) {
    s.update_controller((P)dt);
    s.update_dynamics((P)dt);
    if (k % 50 == 0 || k == n - 1) sane(r, s);
    if (e && k >= from && k % 10 == 0) e->take(s, *g);
  }
  r.step();
}
static void judge(mc::Run& r, int mode, const Err& e, bool by_rate, bool single) {
  r.say([&] { return std::string(mode_name[mode]) + " errors: position " + mc::num(e.p) + " velocity " + mc::num(e.v) + " rates " + mc::num(e.w) + " yaw " + mc::num(e.yaw) + " yaw rate " + mc::num(e.rate); });
  double k = single ? 1.5 : 1;
  switch (mode) {
    case 2: r.require(e.w <= 0.05 * k, "body rates not reached"); break;
    case 4: r.require(e.v <= 0.09 * k, "velocity not reached"); break;
    case 3: r.require(e.p <= 0.03 * k && e.v <= 0.03 * k, "trajectory reference not reached"); break;
    default: r.require(e.p <= 0.12 * k && e.v <= 0.05 * k, "position not reached"); break;
  }
  if (mode != 2) {
    if (by_rate) r.require(e.rate <= 0.03, "yaw rate not reached");
    else r.require(e.yaw <= 0.03, "yaw not reached");
  }
}
static ref::State begin(mc::Run& r, bool wide) {
  ref::State s;
  static const std::vector<double> tilts = {0, 0.5, 1.05};
  double tilt = r.pick(tilts, "tilt"), dir = tilt == 0 ? 0 : r.pick(std::vector<double>{0, 1.5, 3.0, 4.6}, "tilt direction");
  double yaw = r.pick(std::vector<double>{0, 1.7, -2.8, 3.1}, "heading");
  s.q = ref::qmul(ref::axis_angle({0, 0, 1}, yaw), ref::axis_angle({std::cos(dir), std::sin(dir), 0}, tilt));
  s.p = r.pick(wide ? std::vector<V>{{0, 0, 10}, {3, -2, 11}, {-2, 3, 7}, {0, -3, 10}} : std::vector<V>{{0, 0, 10}, {2, -2, 11}}, "start");
  s.v = r.pick(wide ? std::vector<V>{{0, 0, 0}, {1, -2, 1}, {-2, 1, -2}} : std::vector<V>{{0, 0, 0}, {-2, 1, -2}}, "velocity");
  if (s.v[0] != 0) s.w = {0.5, -0.5, 0.3};
  s.m.assign(4, 1133); s.dm.assign(4, 0);
  return s;
}
template <typename P>
static void converge(mc::Run& r, double mass, bool wide, const std::vector<double>& dts) {
  ref::Vehicle b = standard(mass);
  SimSpec sp = spec(b, example(b));
  int mode = r.pick(std::vector<int>{0, 5, 3, 4, 2}, "mode");
  double dt = r.pick(dts, "step");
  sp.start = begin(r, wide);
  for (auto& m : sp.start.m) m = std::sqrt(mass * 9.81 / 4 / 1.91e-6);
  Goal g;
  g.by_rate = mode != 2 && r.flag("yaw rate mode");
  int alt = r.choose(2, "reference");
  // the trajectory loop has no limits: its reference starts near the vehicle
  if (mode == 3) { sp.start.v = 0.5 * sp.start.v; sp.start.p = (alt ? V{1, 1.5, 9} : V{0, 0, 10}) + 0.25 * (sp.start.p - V{0, 0, 10}); }
  Sim<P, 4> s(sim_params<P, 4>(sp));
  s.arm();
  s.set_control_mode(cmode(mode), ymode(g.by_rate ? (int)multirotor::YawControlMode::RATE : (int)multirotor::YawControlMode::ANGLE));
  g.p = sp.start.p;
  double T = 12;
  if (mode == 5 || mode == 3) {
    g.p = alt ? V{1, 1.5, 9} : V{0, 0, 10};
    if (mode == 5) s.set_reference_position(e3<P>(g.p));
    else s.set_reference_trajectory(e3<P>(g.p), e3<P>({0, 0, 0}), e3<P>({0, 0, 0}));
  }
  if (mode == 4) { g.v = alt ? V{1, -1, 0.5} : V{-0.5, 0, -1}; s.set_reference_velocity(e3<P>(g.v)); }
  if (mode == 2) { g.w = alt ? V{0.5, -0.5, 1} : V{0, 0, 0}; s.set_reference_acro((P)(9.81 * mass), e3<P>(g.w)); T = 4; }
  double yaw0 = ref::yaw_of(sp.start.q);
  g.yaw = yaw0;
  if (alt || mode != 0) { g.yaw = yaw0 + (alt ? 1.9 : -1.2); s.set_reference_yaw_angle((P)g.yaw); }
  if (g.by_rate) { g.rate = alt ? 0.7 : -0.3; s.set_reference_yaw_rate((P)g.rate); }
  Err e;
  fly(s, r, dt, T, &g, &e);
  judge(r, mode, e, g.by_rate, sizeof(P) == 4);
  obs_state(r, get<P, 4>(s.get_state())); r.state();
}
// far from the reference: long, fully saturated approaches
static void far(mc::Run& r) {
  ref::Vehicle b = standard();
  SimSpec sp = spec(b, example(b));
  int mode = r.pick(std::vector<int>{5, 0, 4}, "mode");
  double yaw = r.pick(std::vector<double>{0, 2.2, -1}, "heading");
  sp.start.q = ref::rpy(0, 0, yaw);
  sp.start.m.assign(4, 1133);
  sp.start.v = r.pick(std::vector<V>{{0, 0, 0}, {15, 0, 0}, {-12, 12, 3}, {0, -18, -6}, {3, 3, 12}}, "velocity");
  V off = mode == 5 ? r.pick(std::vector<V>{{0, 0, 0}, {300, 0, 0}, {-200, 150, 40}, {20, -350, -60}, {0, 0, 250}, {2, 1, -120}}, "offset") : V{};
  sp.start.p = {10, -20, 500};
  Sim<> s(sim_params(sp));
  s.arm();
  s.set_control_mode(cmode(mode));
  Goal g;
  g.p = sp.start.p + off;
  g.yaw = yaw;
  if (mode == 5) s.set_reference_position(e3(g.p));
  if (mode == 4) { g.v = r.pick(std::vector<V>{{0, 0, 0}, {3, -2, 1}, {-3, 0, -2}}, "reference"); s.set_reference_velocity(e3(g.v)); }
  Err e;
  fly(s, r, 0.005, mode == 4 ? 25 : 90, &g, &e);
  judge(r, mode, e, false, false);
  obs_state(r, get<double, 4>(s.get_state())); r.state();
}
// A moving trajectory is followed
static void track(mc::Run& r, bool wide) {
  ref::Vehicle b = standard();
  SimSpec sp = spec(b, example(b));
  sp.start = begin(r, wide);
  double R = r.pick(std::vector<double>{1, 3}, "radius"), om = r.pick(std::vector<double>{0.5, 1.0}, "speed"), dt = 0.005, up = r.pick(std::vector<double>{0, 0.4}, "climb");
  sp.start.v = 0.5 * sp.start.v + V{0, R * om, up};
  sp.start.p = V{R, 0, 10} + 0.25 * (sp.start.p - V{0, 0, 10});
  Sim<> s(sim_params(sp));
  s.arm();
  s.set_control_mode(multirotor::TRAJECTORY);
  double worst = 0, wv = 0;
  double yaw = ref::yaw_of(sp.start.q) + 0.8;
  s.set_reference_yaw_angle(yaw);
  for (int k = 0; k * dt < 10; k++) {
    double t = k * dt, c = std::cos(om * t), n = std::sin(om * t);
    V p = {R * c, R * n, 10 + up * t}, v = {-R * om * n, R * om * c, up}, a = {-R * om * om * c, -R * om * om * n, 0};
    s.set_reference_trajectory(e3(p), e3(v), e3(a));
    s.update_controller(dt);
    s.update_dynamics(dt);
    if (k % 50 == 0) sane(r, s);
    if (t > 7) { ref::State x = get<double, 4>(s.get_state()); worst = std::max(worst, ref::norm(x.p - p)); wv = std::max(wv, ref::norm(x.v - v)); }
  }
  r.step();
  r.say([&] { return "tracking error position " + mc::num(worst) + " velocity " + mc::num(wv); });
  double lim = 0.05 + 0.15 * R * om * om + 0.03 * R * R * om * om;
  r.require(worst <= lim && wv <= lim * 1.5, "trajectory not followed");
  r.require(wrap(ref::yaw_of(s.get_state().kinematics.orientation.w() >= -2 ? q4(s.get_state().kinematics.orientation) : ref::Q{}) - yaw) <= 0.05, "yaw not reached");
  obs_state(r, get<double, 4>(s.get_state())); r.state();
}
static void command(Sim<>& s, int k) {
  using namespace multirotor;
  switch (k) {
    case 0: s.set_control_mode(HOVER); break;
    case 1: s.set_control_mode(POSITION); s.set_reference_position(e3<double>({2, -1, 12})); s.set_reference_yaw_angle(0.5); break;
    case 2: s.set_control_mode(VELOCITY, YawControlMode::RATE); s.set_reference_velocity(e3<double>({1, 1, 0.5})); s.set_reference_yaw_rate(0.8); break;
    case 3: s.set_control_mode(TRAJECTORY); s.set_reference_trajectory(e3<double>({0, 1, 11}), e3<double>({0, 0, 0}), e3<double>({0, 0, 0})); break;
    case 4: s.set_control_mode(ACRO); s.set_reference_acro(9.81, e3<double>({0.4, -0.3, 0.5})); break;
    case 5: s.set_control_mode(MOTOR_W); s.set_refence_motors_angular_velocity(EN<double, 4>::Constant(1133)); break;
    case 6: s.set_control_mode(POSITION, YawControlMode::RATE); s.set_reference_position(e3<double>({-2, 2, 9})); s.set_reference_yaw_rate(-0.5); break;
  }
}
// all sequences of modes, then hover: the vehicle is caught again
static void switching(mc::Run& r, int depth) {
  ref::Vehicle b = standard();
  SimSpec sp = spec(b, example(b));
  sp.start.p = {0, 0, 10};
  sp.start.q = ref::rpy(0.1, -0.1, 0.6);
  sp.start.m.assign(4, 1133);
  Sim<> s(sim_params(sp));
  s.arm();
  const double dt = 0.005;
  for (int k = 0; k < depth; k++) {
    int c = r.choose(7, "mode");
    command(s, c);
    fly(s, r, dt, c == 5 ? 0.2 : 0.6 + 0.3 * (k % 3));  // motor speeds alone hold nothing: keep that short
  }
  ref::State x = get<double, 4>(s.get_state());
  r.require(ref::norm(x.p - V{0, 0, 10}) < 40 && ref::norm(x.v) < 25, "vehicle lost");
  Goal g;
  int last = r.choose(2, "catch by hover, position");
  command(s, last ? 1 : 0);
  g.p = last ? V{2, -1, 12} : v3(s.get_reference_position());
  g.yaw = s.get_reference_yaw();
  Err e;
  fly(s, r, dt, 16, &g, &e);
  r.say([&] { return "caught with errors: position " + mc::num(e.p) + " velocity " + mc::num(e.v) + " yaw " + mc::num(e.yaw); });
  r.require(e.p <= 0.3 && e.v <= 0.1 && e.yaw <= 0.1, "reference not reached after mode changes");
  obs_state(r, get<double, 4>(s.get_state())); r.state();
}
// take off from the floor, fly, and come back down
static void takeoff(mc::Run& r) {
  ref::Vehicle b = standard();
  SimSpec sp = spec(b, example(b));
  double h = r.pick(std::vector<double>{0, 1.5, -3}, "floor");
  sp.start.p = {0.5, -0.5, h};
  sp.start.q = ref::rpy(0, 0, r.pick(std::vector<double>{0, 1, -2.5}, "heading"));
  Sim<> s(sim_params(sp));
  s.enable_floor_collision(h);
  const double dt = r.pick(std::vector<double>{0.005, 0.002}, "step");
  fly(s, r, dt, r.pick(std::vector<double>{0.1, 1}, "wait"));
  s.arm();
  int mode = r.pick(std::vector<int>{5, 3, 4}, "mode");
  s.set_control_mode(cmode(mode));
  Goal g;
  g.p = V{1, 1, h + 2};
  g.yaw = ref::yaw_of(sp.start.q) + 0.6;
  s.set_reference_yaw_angle(g.yaw);
  if (mode == 5) s.set_reference_position(e3(g.p));
  if (mode == 3) s.set_reference_trajectory(e3(g.p), e3<double>({0, 0, 0}), e3<double>({0, 0, 0}));
  if (mode == 4) { g.v = {0.3, 0, 0.5}; s.set_reference_velocity(e3(g.v)); }
  Err e;
  fly(s, r, dt, 14, &g, &e);
  judge(r, mode, e, false, false);
  if (r.flag("land")) {
    s.set_control_mode(multirotor::VELOCITY);
    s.set_reference_velocity(e3<double>({0, 0, -1}));
    fly(s, r, dt, mode == 4 ? 14 : 6);
    double z = s.get_state().kinematics.position.z();
    r.require(z >= h - 0.05 && z <= h + 0.1, "vehicle did not land");
    s.disarm();
    fly(s, r, dt, 1);
    z = s.get_state().kinematics.position.z();
    r.require(z >= h - 0.05 && z <= h + 0.05, "vehicle did not stay on the floor");
  }
  obs_state(r, get<double, 4>(s.get_state())); r.state();
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "5 modes x steps x starts (tilt, heading, offset, velocity) x references x yaw modes";
    std::vector<double> d1 = t ? std::vector<double>{0.005, 0.001, 0.002} : std::vector<double>{0.005};
    ex.explore("converge", b, 0, [=](mc::Run& r) { converge<double>(r, 1, true, d1); });
    ex.explore("converge_fine", b + ", step of the example", 0, [=](mc::Run& r) { converge<double>(r, 1, false, {0.002}); });
    ex.explore("converge_light", b + ", mass 0.7", 0, [=](mc::Run& r) { converge<double>(r, 0.7, t, {0.005}); });
    ex.explore("converge_heavy", b + ", mass 1.3", 0, [=](mc::Run& r) { converge<double>(r, 1.3, t, {0.005}); });
    ex.explore("converge_f", b + ", single precision", 0, [=](mc::Run& r) { converge<float>(r, 1, t, {0.005}); });
    ex.explore("far", "3 modes x 3 headings x 5 velocities up to 18 m/s x offsets up to 350 m or velocity references up to 4 m/s", 0, far);
    ex.explore("track", "starts x 8 circular and helical trajectories", 0, [=](mc::Run& r) { track(r, t); });
    ex.explore("switching", "all sequences of 7 mode commands, then caught by hover or position mode", 0, [=](mc::Run& r) { switching(r, t ? 4 : 3); });
    ex.explore("takeoff", "floors x headings x modes, take off and land", 0, takeoff);
  });
}
