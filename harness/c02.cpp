// C02: every control mode commands exactly what its own cascade computes.
#include "sim.hpp"
using namespace qm;
using ref::V;

template <int N>
struct World {
  Sim<double, N> s;
  ref::Cascade c;
  SimSpec sp;
  bool unsure = false;
  World(const SimSpec& x) : s(sim_params<double, N>(x)), sp(x) { set_cascade(c, x.ctrl); }

  void control(mc::Run& r, double dt) {
    Refs b = refs<double, N>(s);
    ref::State x = get<double, N>(s.get_state());
    Sensors se = sensors<double, N>(s);
    s.update_controller(dt);
    r.step();
    bool nov = r.novel();
    Refs a = refs<double, N>(s);
    std::vector<double> e(N, 0.0);
    double yaw = b.yaw;
    if (b.armed) {
      ref::M R = ref::qmat(x.q);
      if (b.ymode == 1) {
        double k = sp.ctrl.kp_rot[2][2];
        yaw = ref::yaw_of(x.q) + (k == 0 ? 0 : b.yaw_rate / k);
      }
      c.margin = 1e9;
      switch (b.mode) {
        case 1: e = b.motors; break;
        case 2: e = c.acro(x.w, b.thrust, b.rate, dt); break;
        case 3: e = c.trajectory(x.p, x.v, R, x.w, b.pos, b.vel, b.acc, yaw, dt); break;
        case 4: e = c.velocity(x.v, R, x.w, b.vel, yaw, dt); break;
        case 0:
        case 5: e = c.position(x.p, R, x.v, x.w, b.pos, yaw, dt); break;
      }
      if (c.margin < 1e-6) unsure = true;  // too close to the thrust cut-off to tell the side
    }
    if (!nov || unsure) return;
    std::vector<double> qa(N), qe(N);
    for (int i = 0; i < N; i++) qa[i] = ref::ssq(a.act[i]), qe[i] = ref::ssq(e[i]);
    r.near_v(qa, qe, N, "square of the commanded motor speed", 1e-8);
    if (b.armed && b.ymode == 1) r.near(a.yaw, yaw, "yaw reference in rate mode"), b.yaw = a.yaw;
    same_refs(r, a, b, false);
    same_state(r, get<double, N>(s.get_state()), x);
    same_sensors(r, sensors<double, N>(s), se);
    obs_refs(r, a);
    r.state();
  }
};
static std::string dec(int m, int y) { return std::string(mode_name[m]) + (y ? "/rate" : "/angle"); }

// one composite = mode change, new references, state, control update
template <int N>
static void composites(mc::Run& r, const SimSpec& sp, int depth) {
  SimSpec x = sp;
  x.start = flight(1, N);
  World<N> w(x);
  w.s.arm();
  for (int k = 0; k < depth; k++) {
    int m = r.choose(6), y = r.choose(2), v = r.choose(4);
    r.say([&] { return dec(m, y) + " variant " + std::to_string(v); });
    w.s.set_control_mode(cmode(m), ymode(y));
    if (v < 2) set_all_refs<double, N>(w.s, (v + k) % 3);
    w.control(r, v % 2 ? 0.01 : 0.004);
    if (v == 3) w.s.update_dynamics(0.01);
  }
}
// raw calls
template <int N>
static void raw(mc::Run& r, const SimSpec& sp, int depth, const std::vector<int>& ops, int start) {
  SimSpec x = sp;
  x.start = flight(start, N);
  World<N> w(x);
  w.s.arm();
  set_all_refs<double, N>(w.s, 0);
  for (int k = 0; k < depth; k++) {
    int o = ops[r.choose((int)ops.size())];
    r.say([&] { return "call " + std::to_string(o); });
    if (o < 12) w.s.set_control_mode(cmode(o % 6), ymode(o / 6));
    else switch (o) {
      case 12: w.control(r, 0.01); break;
      case 13: w.control(r, 0.001); break;
      case 14: w.s.update_dynamics(0.01); break;
      case 15: set_all_refs<double, N>(w.s, 1); break;
      case 16: set_all_refs<double, N>(w.s, 2); break;
      case 17: w.s.get_dynamics().set_state(put<double, N>(flight(2, N))); break;
      case 18: w.s.disarm(); break;
      case 19: w.s.arm(); break;
      case 20: w.s.update_imu(0.01); w.s.update_inertial_odometry(0.01); break;
      case 21: w.s.get_controller().reset_controller(); w.c.reset(); break;
      case 22: w.s.enable_floor_collision(2.4); break;
    }
  }
  w.control(r, 0.005);
}
// around contacts with the floor: the controllers go on as if nothing had happened
static void on_floor(mc::Run& r, const SimSpec& sp, int depth) {
  SimSpec x = sp;
  x.start = flight(1, 4);
  x.start.p[2] = 1.503;
  x.start.v = {0.3, -0.4, -0.8};
  World<4> w(x);
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  w.s.enable_floor_collision(1.5);
  set_all_refs<double, 4>(w.s, 1);
  w.control(r, 0.01);
  for (int k = 0; k < depth; k++) {
    switch (r.choose(8)) {
      case 0: w.control(r, 0.01); break;
      case 1: w.s.update_dynamics(0.01); break;
      case 2: w.s.update_dynamics(0.03); w.control(r, 0.01); break;
      case 3: w.s.disable_floor_collision(); break;
      case 4: w.s.enable_floor_collision(1.6); break;
      case 5: w.s.set_control_mode(cmode((m + 1) % 6), ymode(y)); break;
      case 6: w.s.disarm(); w.control(r, 0.01); break;
      case 7: w.s.arm(); break;
    }
  }
  w.control(r, 0.01);
}
// single updates over lattices of states and references
template <int N>
static void lattice(mc::Run& r, const SimSpec& sp) {
  static const auto atts = attitudes();
  static const std::vector<V> vs = {{0, 0, 0}, {3, -2, 1}, {-0.1, 0.05, -9}};
  static const std::vector<V> ws = {{0, 0, 0}, {1, -2, 3}, {-20, 15, 8}};
  static const std::vector<V> ps = {{0, 0, 0}, {5, -4, 3}, {-100, 30, 80}};
  static const std::vector<double> dts = {0.01, 0.0005, 0.2};
  SimSpec x = sp;
  x.start.m.assign(N, 700);
  x.start.q = r.pick(atts, "attitude");
  x.start.v = r.pick(vs, "velocity");
  x.start.w = r.pick(ws, "rates");
  x.start.p = r.pick(ps, "position");
  World<N> w(x);
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  set_all_refs<double, N>(w.s, r.choose(3, "references"));
  double dt = r.pick(dts, "dt");
  w.control(r, dt);
  w.control(r, dt);
}
// every combination of references of the active mode, other references filled with something else
template <int N>
static void references(mc::Run& r, const SimSpec& sp) {
  static const std::vector<V> ps = {{0, 0, 0}, {0.5, -1.5, 2.5}, {-7, 3, 1}, {400, 0, -250}};
  static const std::vector<V> vs = {{0, 0, 0}, {1.5, 0, 0}, {0.3, -0.4, 0.2}, {-15, 12, -30}};
  static const std::vector<V> as = {{0, 0, 0}, {0, 0, 1.5}, {-2, 4, -1}, {0, 0, -12}, {60, -45, 30}};
  static const std::vector<double> yaws = {0, 1.3, -3.1415926535897931, 7.5}, rates = {0, 0.8, -12};
  static const std::vector<V> ws = {{0, 0, 0}, {0, 0, 2}, {0.4, -0.3, 0.2}, {-30, 25, 9}};
  static const std::vector<double> ts = {0, 9.81, 14.3, -4, 250}, dts = {0.01, 0.1};
  SimSpec x = sp;
  static const int starts[] = {0, 1, 4};
  x.start = flight(starts[r.choose(3, "start")], N);
  World<N> w(x);
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  set_all_refs<double, N>(w.s, 1);
  if (m != 1 && m != 2) {
    if (y) w.s.set_reference_yaw_rate(r.pick(rates, "yaw rate"));
    else w.s.set_reference_yaw_angle(r.pick(yaws, "yaw"));
  }
  switch (m) {
    case 1: w.s.set_refence_motors_angular_velocity(pattern<double, N>(700 * (r.choose(5, "base") - 2), 55.5 * r.choose(3, "slope"))); break;
    case 2: { double t = r.pick(ts, "thrust"); w.s.set_reference_acro(t, e3(r.pick(ws, "rates"))); break; }
    case 3: { V p = r.pick(ps, "position"), v = r.pick(vs, "velocity"); w.s.set_reference_trajectory(e3(p), e3(v), e3(r.pick(as, "acceleration"))); break; }
    case 4: w.s.set_reference_velocity(e3(r.pick(vs, "velocity"))); break;
    default: w.s.set_reference_position(e3(r.pick(ps, "position"))); break;
  }
  double dt = r.pick(dts, "dt");
  w.control(r, dt);
  w.s.update_dynamics(0.01);
  w.control(r, dt);
  w.control(r, dt);
}
// usual values everywhere except in up to `budget` numbers, which take every size and sign
static void unusual(mc::Run& r, const SimSpec& sp) {
  SimSpec x = sp;
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  x.start.p = v({0.5, -1.5, 2.5}, 1e4, "position");
  x.start.v = v({0.3, -0.4, 0.2}, 1e4, "velocity");
  x.start.w = v({0.1, 0.2, -0.3}, 1e3, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 1.4, "pitch");
  x.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  x.start.m.assign(4, 700);
  World<4> w(x);
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  set_all_refs<double, 4>(w.s, 1);
  if (m == 2) { double t = r.wide(11, 1e4, "thrust"); w.s.set_reference_acro(t, e3(v({0.3, -0.2, 0.5}, 1e3, "rate reference"))); }
  if (m == 0 || m == 5) w.s.set_reference_position(e3(v({1.5, -1, 3}, 1e4, "position reference")));
  if (m == 4) w.s.set_reference_velocity(e3(v({0.6, 0.1, -0.5}, 1e4, "velocity reference")));
  if (m == 3) { V p = v({0.9, -1, 2.1}, 1e4, "position reference"), q = v({0.6, 0.1, -0.5}, 1e4, "velocity reference"); w.s.set_reference_trajectory(e3(p), e3(q), e3(v({0.2, -0.4, 0.7}, 1e4, "acceleration reference"))); }
  if (m == 1) { V a = v({800, 900, -1000}, 3e5, "motor reference"); EN<double, 4> e; e << a[0], a[1], a[2], r.wide(1100, 3e5, "motor reference"); w.s.set_refence_motors_angular_velocity(e); }
  if (y) w.s.set_reference_yaw_rate(r.wide(0.4, 1e3, "yaw rate reference"));
  else w.s.set_reference_yaw_angle(r.wide(1.1, 1e3, "yaw reference"));
  static const double dts[] = {0.01, 1e-5, 0.002, 0.1, 3};
  double dt = dts[r.deviate(5)];
  w.control(r, dt);
  w.s.update_dynamics(0.01);
  w.control(r, dts[r.deviate(5)]);
  w.control(r, 0.01);
}
// a long flight in every mode: nothing changes with the number of updates
static void endurance(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(1, 4);
  World<4> w(x);
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  set_all_refs<double, 4>(w.s, 2);
  if (m == 1) w.s.set_refence_motors_angular_velocity(pattern(1100, 3));
  for (int k = 0; k < len; k++) {
    w.control(r, 0.005);
    if (k % 4000 < 2000) w.s.update_dynamics(0.005);
    if (k % 500 == 499) w.s.get_dynamics().set_state(put<double, 4>(x.start));
  }
}
static void flights(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(1, 4);
  World<4> w(x);
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  w.s.set_control_mode(cmode(m), ymode(y));
  w.s.arm();
  set_all_refs<double, 4>(w.s, 2);
  if (m == 1) w.s.set_refence_motors_angular_velocity(pattern(1100, 3));
  for (int k = 0; k < len; k++) {
    int d = r.deviate(10);
    if (d >= 1 && d <= 6) w.s.set_control_mode(cmode(d - 1), ymode(y)), r.say([&] { return "at " + std::to_string(k) + " " + dec(d - 1, y); });
    if (d == 7) set_all_refs<double, 4>(w.s, 1);
    if (d == 8) w.s.disarm(), w.control(r, 0.005), w.s.arm();
    if (d == 9) w.control(r, 0.05);
    w.control(r, 0.005);
    w.s.update_dynamics(0.005);
  }
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    SimSpec s0 = spec(standard(), standard_ctrl(standard()));
    SimSpec s1 = spec(crooked(), busy_ctrl(crooked()));
    SimSpec s2 = spec(heavy(), busy_ctrl(heavy()));
    SimSpec s3 = s1;
    s3.ctrl.pos.prop = true; s3.ctrl.rate.up = {30, 25, 20}; s3.ctrl.rate.lo = {-25, -30, -15}; s3.ctrl.traj.up = {6, 7, 8}; s3.ctrl.traj.lo = {-7, -6, -5};
    s3.ctrl.vel.reset = true; s3.ctrl.rate.reset = true; s3.ctrl.kp_rot[2][2] = 0;
    std::vector<SimSpec> all = {s0, s1, s2, s3};
    for (int i = 0; i < 4; i++) {
      int d = ex.thorough && i < 3 ? 4 : 3;
      if (!ex.thorough && i == 2) d = 2;
      ex.explore("composites_" + std::to_string(i), "all sequences of 48 (mode, yaw mode, references, step) composites, length " + std::to_string(d), 0,
                 [&, i, d](mc::Run& r) { composites<4>(r, all[i], d); });
      ex.explore("lattice_" + std::to_string(i), "all states, references, modes and steps of the lattice", 0, [&, i](mc::Run& r) { lattice<4>(r, all[i]); });
    }
    for (int i = 0; i < 4; i++)
      ex.explore("references_" + std::to_string(i), "all combinations of the references of every mode from 3 states, three updates each", 0, [&, i](mc::Run& r) { references<4>(r, all[i]); });
    for (int i = 0; i < 4; i++) {
      int b = ex.thorough ? 3 : 2;
      ex.explore("unusual_" + std::to_string(i), "12 modes, every number of state, references and steps unusual", i == 0 || i == 3 ? b : 2, [&, i](mc::Run& r) { unusual(r, all[i]); });
      ex.explore("endurance_" + std::to_string(i), "12 modes, 6000 updates each", 0, [&, i](mc::Run& r) { endurance(r, all[i], 6000); });
    }
    ex.explore("on_floor", "12 modes x all sequences of 8 calls around contacts with the floor", 0, [&](mc::Run& r) { on_floor(r, s3, r.thorough() ? 6 : 5); });
    std::vector<int> ops;
    for (int i = 0; i < 23; i++) ops.push_back(i);
    int d = ex.thorough ? 5 : 4;
    ex.explore("raw_calls", "all sequences of 23 calls, length " + std::to_string(d), 0, [&](mc::Run& r) { raw<4>(r, s1, d, ops, 1); });
    int e = ex.thorough ? 8 : 6;
    for (int m : {0, 2, 3, 4, 9})
      ex.explore("raw_deep_" + std::to_string(m), "all sequences of 7 calls, length " + std::to_string(e), 0,
                 [&, m, e](mc::Run& r) { raw<4>(r, s3, e, {m, 12, 14, 15, 18, 19, m == 4 ? 5 : 4}, 2); });
    SimSpec h = spec(hexa(), busy_ctrl(crooked()));
    h.ctrl.alloc.clear();
    for (int i = 0; i < 6; i++) h.ctrl.alloc.push_back({1e3 * i, -2e3 * i, 8e4 + 1e3 * i, (i % 2 ? 1e6 : -1e6), (i % 3 - 1) * 1e6, (i % 2 ? -4e5 : 4e5)});
    ex.explore("composites_hexa", "all sequences of 48 composites, length 2, 6 rotors", 0, [&](mc::Run& r) { composites<6>(r, h, 2); });
    ex.explore("flights", "flights of " + std::to_string(ex.thorough ? 60 : 80) + " control and dynamics steps from every mode", ex.thorough ? 2 : 1, [&](mc::Run& r) { flights(r, s0, r.thorough() ? 60 : 80); });
  });
}
