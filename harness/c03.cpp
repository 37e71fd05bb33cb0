// C03: changing mode captures the current pose; setters touch only their reference.
#include "sim.hpp"
using namespace qm;
using ref::V;

struct World {
  Sim<double, 4> s;
  Refs e;  // expected
  World(const SimSpec& x) : s(sim_params(x)) {
    e.armed = e.floor = false;
    e.height = e.thrust = e.yaw = e.yaw_rate = 0;
    e.mode = 1;
    e.ymode = 0;
    e.rate = e.pos = e.vel = e.acc = e.ext = V{};
    e.motors.assign(4, 0);
    e.act.assign(4, 0);
  }
  void judge(mc::Run& r) {
    r.step();
    if (!r.novel()) return;
    Refs a = refs<double, 4>(s);
    if (a.yaw != e.yaw) {  // captured from the attitude: the same angle, not the same bits
      r.near(std::sin(a.yaw), std::sin(e.yaw), "yaw reference (sine)");
      r.near(std::cos(a.yaw), std::cos(e.yaw), "yaw reference (cosine)");
      r.require(std::fabs(a.yaw) <= M_PI + 1e-9 || std::fabs(a.yaw - e.yaw) < 1e-9, "yaw reference in range");
      e.yaw = a.yaw;
    }
    same_refs(r, a, e);
    obs_refs(r, a);
    r.state();
  }
  void mode(int m, int y) {
    s.set_control_mode(cmode(m), ymode(y));
    if (m == e.mode && y == e.ymode) return;
    e.mode = m;
    e.ymode = y;
    ref::State x = get<double, 4>(s.get_state());
    e.pos = x.p;
    e.yaw = ref::yaw_of(x.q);
    e.vel = e.acc = e.rate = V{};
    e.thrust = 0;
  }
  void setter(int k, double a) {
    std::vector<double> m = {500 * a, -30 * a, 77, 1e3 * a};
    V u{1.5 * a, -2.5, 0.75 * a}, v{-0.5, 0.25 * a, 3 * a}, w{0.125 * a, 8, -6 * a};
    switch (k) {
      case 0: s.set_refence_motors_angular_velocity(en<double, 4>(m)); e.motors = m; break;
      case 1: s.set_reference_acro(4 * a, e3(u)); e.thrust = 4 * a; e.rate = u; break;
      case 2: s.set_reference_trajectory(e3(u), e3(v), e3(w)); e.pos = u; e.vel = v; e.acc = w; break;
      case 3: s.set_reference_velocity(e3(w)); e.vel = w; break;
      case 4: s.set_reference_position(e3(v)); e.pos = v; break;
      case 5: s.set_reference_yaw_angle(1.25 * a); e.yaw = 1.25 * a; break;
      case 6: s.set_reference_yaw_rate(-0.375 * a); e.yaw_rate = -0.375 * a; break;
    }
  }
  void arm() {
    s.arm();
    e.armed = true;
    e.thrust = 9.81;
    e.rate = V{};
    e.pos[2] = e.height;
  }
  void disarm() {
    s.disarm();
    e.armed = false;
    e.act.assign(4, 0);
  }
  void control(double dt) {
    s.update_controller(dt);
    e.act = vn(s.get_actuation_motors_angular_velocity());
    if (e.armed && e.ymode == 1) e.yaw = s.get_reference_yaw();  // decided by C24
  }
  void call(mc::Run& r, int o) {
    r.say([&] { return "call " + std::to_string(o); });
    if (o < 12) mode(o % 6, o / 6);
    else if (o < 19) setter(o - 12, 1);
    else if (o < 26) setter(o - 19, -2);
    else switch (o) {
      case 26: arm(); break;
      case 27: disarm(); break;
      case 28: control(0.01); break;
      case 29: s.update_dynamics(0.01); break;
      case 30: s.enable_floor_collision(-1.5); e.floor = true; e.height = -1.5; break;
      case 31: s.enable_floor_collision(2.75); e.floor = true; e.height = 2.75; break;
      case 32: s.disable_floor_collision(); e.floor = false; break;
      case 33: s.get_dynamics().set_state(put(flight(2, 4))); break;
      case 34: s.update_imu(0.01); s.update_inertial_odometry(0.01); break;
      case 35: s.enable_floor_collision(); e.floor = true; e.height = 0; break;
      case 36: s.get_dynamics().set_state(put(flight(4, 4))); break;
    }
    judge(r);
  }
};
static void sequences(mc::Run& r, const SimSpec& sp, int depth, const std::vector<int>& ops, int start, bool busy) {
  SimSpec x = sp;
  x.start = flight(start, 4);
  World w(x);
  w.judge(r);
  if (busy) for (int o : {26, 12, 20, 14, 15, 16, 17, 18}) w.call(r, o);
  for (int k = 0; k < depth; k++) w.call(r, ops[r.choose((int)ops.size())]);
}
// every ordered pair of modes in every attitude, with every reference set before
static void pairs(mc::Run& r, const SimSpec& sp) {
  static const auto atts = attitudes();
  static const std::vector<V> ps = {{0, 0, 0}, {3.25, -7.5, 11}, {-1e4, 2e-3, -5}};
  static const std::vector<double> yaws = {0, 1.6, 3.1, -3.1, -1.6, M_PI / 2, M_PI};
  SimSpec x = sp;
  x.start = flight(1, 4);
  ref::Q base = r.pick(atts, "attitude");
  x.start.q = ref::qmul(ref::axis_angle({0, 0, 1}, r.pick(yaws, "heading")), base);
  if (r.flag("negated quaternion")) x.start.q = {-x.start.q.w, -x.start.q.x, -x.start.q.y, -x.start.q.z};
  x.start.p = r.pick(ps, "position");
  World w(x);
  int a = r.choose(12, "first mode"), b = r.choose(12, "second mode"), act = r.choose(3, "armed");
  w.call(r, a);
  if (act) w.call(r, 26);
  for (int o = 12; o < 19; o++) w.call(r, o);
  if (act == 2) w.call(r, 28), w.call(r, 29);
  w.call(r, b);
  w.call(r, 28);
  w.call(r, b);
}
static void flights(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(1, 4);
  World w(x);
  int m = r.choose(12, "mode");
  w.call(r, m);
  w.call(r, 26);
  for (int o = 12; o < 19; o++) w.call(r, o);
  for (int k = 0; k < len; k++) {
    int d = r.deviate(38);
    if (d) w.call(r, d - 1);
    w.call(r, 28);
    w.call(r, 29);
  }
}
// numbers of every size in the state and the references
static void unusual(mc::Run& r, const SimSpec& sp) {
  SimSpec x = sp;
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  int a = r.choose(12, "first mode"), b = r.choose(12, "second mode");
  bool armed = r.flag("armed");
  x.start.p = v({0.5, -1.5, 2.5}, 1e8, "position");
  x.start.v = v({0.3, -0.4, 0.2}, 1e4, "velocity");
  x.start.w = v({0.1, 0.2, -0.3}, 1e3, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 1.4, "pitch");
  x.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  World w(x);
  double h = r.wide(0.7, 1e8, "floor");
  w.s.enable_floor_collision(h); w.e.floor = true; w.e.height = h;
  w.call(r, a);
  if (armed) w.call(r, 26);
  V u = v({1, 2, 3}, 1e8, "position reference"), q = v({0.4, 0.5, -0.6}, 1e8, "velocity reference"), c = v({0.1, 0.2, 0.3}, 1e8, "acceleration reference"), o = v({0.2, -0.1, 0.4}, 1e8, "rate reference");
  double t = r.wide(10, 1e8, "thrust"), yaw = r.wide(0.5, 1e8, "yaw reference"), rate = r.wide(-0.6, 1e8, "yaw rate reference");
  std::vector<double> m = {900, 1000, 1100, r.wide(1200, 1e8, "motor reference")};
  w.s.set_reference_trajectory(e3(u), e3(q), e3(c)); w.e.pos = u; w.e.vel = q; w.e.acc = c; w.judge(r);
  w.s.set_reference_acro(t, e3(o)); w.e.thrust = t; w.e.rate = o; w.judge(r);
  w.s.set_reference_yaw_angle(yaw); w.e.yaw = yaw; w.judge(r);
  w.s.set_reference_yaw_rate(rate); w.e.yaw_rate = rate; w.judge(r);
  w.s.set_refence_motors_angular_velocity(en<double, 4>(m)); w.e.motors = m; w.judge(r);
  w.s.set_reference_velocity(e3(c)); w.e.vel = c; w.judge(r);
  w.s.set_reference_position(e3(q)); w.e.pos = q; w.judge(r);
  w.call(r, 28);
  w.call(r, b);
  w.call(r, 26);
  w.call(r, 28);
}
// writing again the same, or hardly different, references
static void again(mc::Run& r, const SimSpec& sp) {
  World w(sp);
  w.call(r, r.choose(12, "mode"));
  if (r.flag("armed")) w.call(r, 26);
  V u{1, 2, 3}, q{0.4, 0.5, -0.6}, c{0.1, 0.2, 0.3}, o{0.2, -0.1, 0.4}, z{};
  double t = 10, yaw = 0.5, rate = -0.6;
  std::vector<double> m = {900, 1000, 1100, 1200};
  int start = r.choose(2, "nonzero first");
  if (!start) { u = q = c = o = z; t = yaw = rate = 0; m.assign(4, 0); }
  w.s.set_reference_trajectory(e3(u), e3(q), e3(c)); w.e.pos = u; w.e.vel = q; w.e.acc = c;
  w.s.set_reference_acro(t, e3(o)); w.e.thrust = t; w.e.rate = o;
  w.s.set_reference_yaw_angle(yaw); w.e.yaw = yaw;
  w.s.set_reference_yaw_rate(rate); w.e.yaw_rate = rate;
  w.s.set_refence_motors_angular_velocity(en<double, 4>(m)); w.e.motors = m;
  w.judge(r);
  auto v = [&](V d, const char* n) { V x; for (int i = 0; i < 3; i++) x[i] = r.nearby(d[i], n); return x; };
  bool split = r.flag("separate setters");
  V u2 = v(u, "position"), q2 = v(q, "velocity"), o2 = v(o, "rates");
  if (split) {
    w.s.set_reference_position(e3(u2)); w.e.pos = u2; w.judge(r);
    w.s.set_reference_velocity(e3(q2)); w.e.vel = q2; w.judge(r);
  } else {
    V c2 = v(c, "acceleration");
    w.s.set_reference_trajectory(e3(u2), e3(q2), e3(c2)); w.e.pos = u2; w.e.vel = q2; w.e.acc = c2; w.judge(r);
  }
  double t2 = r.nearby(t, "thrust");
  w.s.set_reference_acro(t2, e3(o2)); w.e.thrust = t2; w.e.rate = o2; w.judge(r);
  yaw = r.nearby(yaw, "yaw"); w.s.set_reference_yaw_angle(yaw); w.e.yaw = yaw; w.judge(r);
  rate = r.nearby(rate, "yaw rate"); w.s.set_reference_yaw_rate(rate); w.e.yaw_rate = rate; w.judge(r);
  for (auto& x : m) x = r.nearby(x, "motor");
  w.s.set_refence_motors_angular_velocity(en<double, 4>(m)); w.e.motors = m; w.judge(r);
}
// references stay through long flights
static void endurance(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(1, 4);
  World w(x);
  int m = r.choose(12, "mode"), cycle = r.choose(2, "mode changes");
  w.call(r, m);
  w.call(r, 26);
  for (int o = 12; o < 19; o++) w.call(r, o);
  for (int k = 0; k < len; k++) {
    w.call(r, 28);
    w.call(r, 29);
    if (k % 100 == 99) { w.call(r, 36); if (cycle) w.call(r, (k / 100) % 12); w.call(r, 12 + (k / 100) % 14); }
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    SimSpec s0 = spec(standard(), standard_ctrl(standard()));
    SimSpec s1 = spec(crooked(), busy_ctrl(crooked()));
    std::vector<int> all;
    for (int i = 0; i < 37; i++) all.push_back(i);
    int d = ex.thorough ? 5 : 4;
    ex.explore("calls_from_rest", "all sequences of 37 calls, length 3", 0, [&](mc::Run& r) { sequences(r, s0, 3, all, 0, false); });
    ex.explore("calls_in_flight", "all sequences of 37 calls, length " + std::to_string(d) + ", with every reference set and armed", 0, [&](mc::Run& r) { sequences(r, s1, d, all, 1, true); });
    int e = ex.thorough ? 8 : 6;
    for (int m : {0, 3, 9, 11})
      ex.explore("deep_" + std::to_string(m), "all sequences of 8 calls, length " + std::to_string(e), 0,
                 [&, m, e](mc::Run& r) { sequences(r, s1, e, {m, 2, 26, 27, 28, 14, 33, 31}, 1, true); });
    ex.explore("mode_pairs", "all ordered pairs of the 12 mode combinations over attitudes, headings and positions", 0, [&](mc::Run& r) { pairs(r, s1); });
    ex.explore("unusual", "144 mode pairs, every number of state and references unusual", ex.thorough ? 2 : 1, [&](mc::Run& r) { unusual(r, s0); });
    ex.explore("again", "12 modes, every reference written again, the same or any " + std::to_string(ex.thorough ? 2 : 1) + " numbers hardly different", ex.thorough ? 2 : 1, [&](mc::Run& r) { again(r, s0); });
    ex.explore("endurance", "12 modes, 5000 updates each, with and without mode changes", 0, [&](mc::Run& r) { endurance(r, s1, 5000); });
    ex.explore("flights", "flights of 30 steps in every mode", ex.thorough ? 2 : 1, [&](mc::Run& r) { flights(r, s0, 30); });
  });
}
