// C04: the floor is never penetrated and contact stops the vehicle cleanly.
// The expected free-flight step is made by a copy of the simulator's own dynamics component.
#include "sim.hpp"
using namespace qm;
using ref::V;

struct World {
  Sim<double, 4> s;
  ref::Vehicle body;
  bool floor = false, contact = false;
  double h = 0;
  bool noisy;
  World(const SimSpec& x) : s(sim_params(x)), body(x.body), noisy(x.fnoise != 0 || x.mnoise != 0) { s.get_controller() = warm(s.get_controller_const()); }
  // controllers that have worked before, so that they have something to remember
  static multirotor::controller::Controller<double, 4> warm(multirotor::controller::Controller<double, 4> c) {
    auto R = eq<double>(ref::rpy(0.1, 0.2, 0.3)).toRotationMatrix();
    for (int k = 0; k < 2; k++) {
      c.compute_position_control(e3<double>({1, 2, 3}), R, e3<double>({0.1, 0.2, 0.3}), e3<double>({0.3, 0.2, 0.1}), e3<double>({1.5 - k, 1, 4}), 0.2, 0.02);
      c.compute_trajectory_control(e3<double>({1, 2, 3}), e3<double>({0.1, 0.2, 0.3}), R, e3<double>({0.3, 0.2, 0.1}), e3<double>({1.5, 1 + k, 4}), e3<double>({0, 0.1, 0}), e3<double>({0, 0, 0.1}), 0.2, 0.02);
    }
    return c;
  }

  void dynamics(mc::Run& r, double dt) {
    multirotor::dynamics::Dynamics<double, 4> d = s.get_dynamics_const();
    Sensors before = sensors<double, 4>(s);
    Refs rb = refs<double, 4>(s);
    auto cb = ctrl_view<double, 4>(s.get_controller_const());
    auto control = s.get_controller_const();
    bool below = floor && d.get_state().kinematics.position.z() < h;
    V ext = below ? -1.0 * (body.mass * body.g) : V{};
    bool quiet = contact || !noisy;
    ref::State x = get<double, 4>(d.get_state());
    d.process_euler_explicit(s.get_actuation_motors_angular_velocity(), dt, e3(ext), !contact);
    ref::State e = get<double, 4>(d.get_state());
    s.update_dynamics(dt);
    r.step();
    contact = floor && e.p[2] < h;
    if (!std::isfinite(e.p[2]) || !std::isfinite(ref::norm(e.v) + ref::norm(e.w))) return;  // integration of an absurd motion diverged
    if (!r.novel()) return;
    r.say([&] { return "step dt=" + mc::num(dt) + " free z=" + mc::num(e.p[2]) + (below ? " from below" : "") + (contact ? " contact" : ""); });
    ref::State a = get<double, 4>(s.get_state());
    if (floor) r.require(a.p[2] >= h, "vehicle below the floor");
    if (quiet && dt <= 0.01) {  // and the component itself against the equations of motion
      std::vector<double> u(4);
      for (int i = 0; i < 4; i++) u[i] = s.get_actuation_motors_angular_velocity()[i];
      near_state(r, e, ref::step(body, x, u, dt, ext), 1e-8);
    }
    Sensors se = before;
    if (contact) {
      e.p[2] = h;
      e.v = e.w = e.a = e.dw = V{};
      r.same(a.p[2], h, "height on contact");
      for (int i = 0; i < 3; i++) {
        r.same(a.v[i], 0, "velocity on contact");
        r.same(a.w[i], 0, "body rate on contact");
        r.same(a.a[i], 0, "acceleration on contact");
        r.same(a.dw[i], 0, "angular acceleration on contact");
      }
      se = Sensors();
      se.q = a.q;
      for (V* v : {&se.gyro, &se.accel, &se.gbias, &se.abias, &se.p, &se.v, &se.w, &se.a}) *v = V{};
    }
    near_state(r, a, e, 1e-11);
    same_sensors(r, sensors<double, 4>(s), se);
    Refs ra = refs<double, 4>(s);
    same_refs(r, ra, rb);
    r.same_v(ra.ext, V{}, 3, "support force after the step");
    auto ca = ctrl_view<double, 4>(s.get_controller_const());
    r.same_v(ca, cb, (int)cb.size(), "controller after a dynamics step");
    same_memory<double, 4>(r, s.get_controller_const(), control);
    obs_state(r, a);
    r.obs_tag(contact * 2 + below);
    r.state();
  }
  void call(mc::Run& r, int o) {
    r.say([&] { return "call " + std::to_string(o); });
    switch (o) {
      case 0: dynamics(r, 0.01); break;
      case 1: dynamics(r, 0.05); break;
      case 2: dynamics(r, 0.001); break;
      case 3: s.enable_floor_collision(0); floor = true; h = 0; break;
      case 4: s.enable_floor_collision(1.5); floor = true; h = 1.5; break;
      case 5: s.disable_floor_collision(); floor = false; break;
      case 6: s.get_dynamics().set_state(put(flight(3, 4))); break;
      case 7: s.get_dynamics().set_state(put(flight(5, 4))); break;
      case 8: s.get_dynamics().set_state(put(flight(1, 4))); break;
      case 9: s.set_refence_motors_angular_velocity(pattern(1600, 5)); s.arm(); s.update_controller(0.01); break;
      case 10: s.disarm(); break;
      case 11: s.update_imu(0.01); s.update_inertial_odometry(0.01); break;
      case 12: s.enable_floor_collision(-3); floor = true; h = -3; break;
      case 13: {  // rejected step
        bool t = false;
        try { s.update_dynamics(0); } catch (const std::invalid_argument&) { t = true; }
        r.require(t, "step of zero length accepted");
        break;
      }
      case 14: s.set_control_mode(cmode(3)); break;
      case 15: s.set_control_mode(cmode(1)); break;
    }
  }
};
static void sequences(mc::Run& r, const SimSpec& sp, int depth, const std::vector<int>& ops, const std::vector<int>& pre) {
  World w(sp);
  for (int o : pre) w.call(r, o);
  for (int k = 0; k < depth; k++) w.call(r, ops[r.choose((int)ops.size())]);
  w.call(r, 0);
}
static void lattice(mc::Run& r, const SimSpec& sp) {
  static const auto atts = attitudes();
  static const std::vector<double> gap = {1, 1e-3, 1e-9, 0, -1e-9, -1e-3, -0.5, -40};
  static const std::vector<V> vs = {{0, 0, 0}, {0.5, -1, -0.2}, {3, 2, -8}, {-1, 0, 4}, {0, 0, -1e-4}};
  static const std::vector<double> hs = {0, 2.5, -7.25, 1000};
  static const std::vector<double> dts = {0.01, 0.0002, 0.03, 0.25};
  SimSpec x = sp;
  double h = r.pick(hs, "floor");
  x.start.p = {1.5, -2, h + r.pick(gap, "gap")};
  x.start.q = r.pick(atts, "attitude");
  x.start.v = r.pick(vs, "velocity");
  x.start.w = r.flag("turning") ? V{1, -2, 3} : V{};
  double sp0 = r.choose(3, "motors") * 900.0;
  x.start.m.assign(4, sp0);
  World w(x);
  double dt = r.pick(dts, "dt");
  w.s.set_refence_motors_angular_velocity(pattern(sp0, 0));
  w.s.arm();
  w.s.update_controller(0.01);
  w.s.update_imu(0.01);
  w.s.update_inertial_odometry(0.01);
  w.s.enable_floor_collision(h);
  w.floor = true;
  w.h = h;
  for (int k = 0; k < 3; k++) w.dynamics(r, dt);
}
static void flights(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(r.choose(2, "start") ? 3 : 1, 4);
  World w(x);
  w.call(r, 3);
  int m = r.choose(3, "command");
  if (m == 1) w.call(r, 9);
  if (m == 2) w.s.arm(), w.s.set_control_mode(cmode(0)), w.s.set_reference_position(e3({0, 0, -1}));
  for (int k = 0; k < len; k++) {
    int d = r.deviate(12);
    static const int alt[] = {0, 1, 4, 5, 3, 7, 8, 10, 9, 11, 13, 12};
    if (d) w.call(r, alt[d]);
    if (m == 2) w.s.update_controller(0.01);
    w.call(r, 0);
  }
}
static void unusual(mc::Run& r, const SimSpec& sp) {
  SimSpec x = sp;
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  double h = r.wide(0.7, 1e4, "floor");
  double gap = r.pick(std::vector<double>{0.004, -0.5}, "gap");
  x.start.p = v({0.5, -1.5, 0}, 1e4, "position");
  x.start.p[2] += h + gap;
  x.start.v = v({0.3, -0.4, -1.2}, 1e4, "velocity");
  static const double masses[] = {1, 0.02, 0.2, 30, 1e3};
  x.body.mass *= masses[r.deviate(5, "mass")];
  x.body.g[2] = r.wide(x.body.g[2], 100, "gravity");
  if (x.body.drag * ref::norm(x.start.v) * 0.01 > 0.5 * x.body.mass) return;  // numerically unstable
  x.start.w = v({0.1, 0.2, -0.3}, 1e2, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 10, "pitch");
  x.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  for (auto& m : x.start.m) m = r.wide(900, 1e4, "motor speed");
  World w(x);
  w.s.set_refence_motors_angular_velocity(pattern(r.wide(1000, 1e4, "command"), 5));
  w.s.arm();
  w.s.update_controller(0.01);
  w.s.update_imu(0.01);
  w.s.update_inertial_odometry(0.01);
  w.s.enable_floor_collision(h); w.floor = true; w.h = h;
  static const double dts[] = {0.01, 1e-6, 0.002, 0.1, 0.3};
  double dt = dts[r.deviate(5)];
  w.dynamics(r, dt);
  w.s.update_imu(0.01);
  w.s.update_inertial_odometry(0.01);
  w.dynamics(r, dts[r.deviate(5)]);
  w.dynamics(r, 0.01);
}
// a vehicle that changes while the floor is on: heavier, lighter, other gravity, by every route
static void loaded(mc::Run& r, const SimSpec& sp) {
  SimSpec x = sp;
  double h = r.pick(std::vector<double>{0, 0.7}, "floor");
  x.start.p = {0.5, -1.5, h + r.pick(std::vector<double>{0, -0.2, 1e-3, 0.4}, "gap")};
  x.start.v = {0.3, -0.4, r.pick(std::vector<double>{0, -1.2}, "vertical velocity")};
  x.start.m.assign(4, 1000);
  World w(x);
  auto& model = w.s.get_dynamics().get_model();
  w.s.enable_floor_collision(h); w.floor = true; w.h = h;
  w.s.set_refence_motors_angular_velocity(pattern(1000, 5));
  w.s.arm();
  w.s.update_controller(0.01);
  if (r.flag("step before")) w.dynamics(r, 0.01);
  for (int k = 0; k < 2; k++) {
    int what = r.choose(5, "change");
    if (what == 1) w.body.mass *= 2.5;
    if (what == 2) w.body.mass *= 0.9;
    if (what == 3) w.body.g = V{0.2, 0, -3.7};
    if (what == 4) { w.body = crooked(); }
    auto p = model_params<double, 4>(w.body);
    if (what) w.noisy = p.force_process_noise_auto_correlation != 0 || p.moment_process_noise_auto_correlation != 0;
    using Mod = multirotor::model::Model<double, 4>;
    if (what) switch (r.choose(6, "route")) {
      case 0: { multirotor::dynamics::DynamicsParams<double, 4> q; q.model_params = p; q.state = w.s.get_state(); w.s.set_dynamics_params(q); break; }
      case 1: w.s.get_dynamics().get_model().update_params(p); break;
      case 2: model.update_params(p); break;
      case 3: w.s.get_dynamics().set_model(Mod(p)); break;
      case 4: w.s.get_dynamics() = multirotor::dynamics::Dynamics<double, 4>(p, w.s.get_state()); break;
      case 5: model = Mod(p); break;
    }
    if (r.flag("lowered")) { auto y = w.s.get_state(); y.kinematics.position.z() = h - 0.5; w.s.get_dynamics().set_state(y); }
    w.dynamics(r, 0.01);
    w.dynamics(r, 0.002);
  }
}
// a floor that moves a little
static void moved(mc::Run& r, const SimSpec& sp) {
  static const std::vector<double> hs = {0, 0.7, -3}, gaps = {0, 1e-3, -1e-3, 0.3}, vz = {0, -1.2, 0.8}, move = {0, 1e-9, -1e-6, 2e-4, -2e-4, 4e-3, -4e-3, 0.02};
  SimSpec x = sp;
  double h = r.pick(hs, "floor");
  x.start.p = {0.5, -1.5, h + r.pick(gaps, "gap")};
  x.start.v = {0.3, -0.4, r.pick(vz, "vertical velocity")};
  x.start.m.assign(4, 1000);
  World w(x);
  auto to = [&](double z) { w.s.enable_floor_collision(z); w.floor = true; w.h = z; r.same(w.s.get_floor_height(), z, "floor height"); };
  to(h);
  w.s.set_refence_motors_angular_velocity(pattern(1000, 5));
  w.s.arm();
  w.s.update_controller(0.01);
  w.s.update_imu(0.01);
  w.dynamics(r, 0.01);
  for (int k = 0; k < 2; k++) {
    if (r.deviate(2, "off before")) { w.call(r, 5); w.dynamics(r, 0.01); }
    to(w.h + r.pick(move, "move"));
    w.dynamics(r, 0.01);
    w.dynamics(r, 0.002);
  }
}
// resting on the floor and hopping for long
static void endurance(mc::Run& r, const SimSpec& sp, int len) {
  SimSpec x = sp;
  x.start = flight(3, 4);
  World w(x);
  w.call(r, 3);
  int style = r.choose(4, "style");
  for (int k = 0; k < len; k++) {
    if (style == 1 && k % 40 == 0) w.call(r, 9);
    if (style == 1 && k % 40 == 20) w.call(r, 10);
    if (style == 2 && k % 60 == 0) w.call(r, 8);
    if (style == 3 && k % 30 == 0) w.call(r, k % 60 ? 3 : 4);
    if (k % 7 == 0) w.call(r, 11);
    w.call(r, 0);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    SimSpec s0 = spec(standard(), standard_ctrl(standard()));
    SimSpec s1 = spec(crooked(), busy_ctrl(crooked()));
    s1.fnoise = 0.5; s1.mnoise = 0.2; s1.model_seed = 3;
    for (SimSpec* s : {&s0, &s1}) { s->gyro_var = 0.04; s->accel_var = 0.09; s->gyro_walk = 0.01; s->accel_walk = 0.02; s->imu_seed = 4; s->odo_q = ref::rpy(0.1, 0.2, 0.3); }
    SimSpec s2 = spec(heavy(), standard_ctrl(heavy()));
    s2.fnoise = 2;
    std::vector<int> all;
    for (int i = 0; i < 16; i++) all.push_back(i);
    int d = ex.thorough ? 6 : 5;
    ex.explore("calls_quiet", "all sequences of 16 calls, length " + std::to_string(d), 0, [&](mc::Run& r) { sequences(r, s0, d, all, {}); });
    ex.explore("calls_noise", "all sequences of 16 calls, length " + std::to_string(d) + ", with process noise, floor on, falling", 0, [&](mc::Run& r) { sequences(r, s1, d, all, {3, 6, 11}); });
    int e = ex.thorough ? 9 : 7;
    ex.explore("deep_contact", "all sequences of 6 calls, length " + std::to_string(e), 0, [&](mc::Run& r) { sequences(r, s1, e, {0, 4, 5, 6, 9, 3}, {3, 6}); });
    ex.explore("lattice_0", "all gaps, velocities, attitudes, floors and steps", 0, [&](mc::Run& r) { lattice(r, s0); });
    ex.explore("lattice_1", "all gaps, velocities, attitudes, floors and steps", 0, [&](mc::Run& r) { lattice(r, s1); });
    ex.explore("lattice_2", "all gaps, velocities, attitudes, floors and steps", 0, [&](mc::Run& r) { lattice(r, s2); });
    for (SimSpec* s : {&s0, &s1, &s2})
      ex.explore(s == &s0 ? "unusual_0" : s == &s1 ? "unusual_1" : "unusual_2", "every number of state, floor and steps unusual", ex.thorough ? 3 : 2, [&, s](mc::Run& r) { unusual(r, *s); });
    for (SimSpec* s : {&s0, &s1})
      ex.explore(s == &s0 ? "moved_0" : "moved_1", "floors x gaps x velocities x all pairs of 8 moves of the floor", 1, [&, s](mc::Run& r) { moved(r, *s); });
    for (SimSpec* s : {&s0, &s1})
      ex.explore(s == &s0 ? "loaded_0" : "loaded_1", "floors x gaps x velocities x all pairs of 5 changes of the vehicle by 6 routes", 0, [&, s](mc::Run& r) { loaded(r, *s); });
    for (SimSpec* s : {&s0, &s1})
      ex.explore(s == &s0 ? "endurance_0" : "endurance_1", "4 patterns of contacts, 6000 steps each", 0, [&, s](mc::Run& r) { endurance(r, *s, 6000); });
    ex.explore("flights", "flights of 80 steps onto the floor", 2, [&](mc::Run& r) { flights(r, s1, r.thorough() ? 120 : 50); });
  });
}
