// C06: a dynamics update simulates exactly the time requested, or rejects it.
#include "sim.hpp"
using namespace qm;
using ref::V;
using Dyn = multirotor::dynamics::Dynamics<double, 4>;

// lengths: multiples of the internal step, their neighbours, and everything in between
static std::vector<double> lengths(bool thorough) {
  std::vector<double> l;
  for (double x : {1e-12, 1e-9, 1e-6, 1e-5, 1e-4, 0.001, 0.0025, 0.005, 0.0075, 0.0099, 0.01}) l.push_back(x);
  int top = thorough ? 600 : 150;
  for (int i = 1; i <= top; i++) {
    double m = 0.01 * i;
    l.push_back(m);
    l.push_back(i / 100.0);
    l.push_back(std::nextafter(m, 0));
    l.push_back(std::nextafter(m, 9e9));
    l.push_back(m - 1e-9);
    l.push_back(m + 1e-9);
    l.push_back(m + 0.001);
    l.push_back(m + 0.0049);
    l.push_back(m + 0.005);
    l.push_back(m + 0.0093);
  }
  for (double x : {2.0, 3.337, 5.0, 7.77, 10.0, 12.3456, 33.3, 60.0, 100.0, 123.456, 333.0, 655.37, 1000.0, 3600.0}) l.push_back(x);
  if (thorough) for (double x : {10000.0, 36000.5}) l.push_back(x);
  return l;
}
static std::vector<int> splits(double dt) {  // numbers of equal internal steps the statement allows
  std::vector<int> n;
  if (dt <= 0.01) n.push_back(1);
  int c = (int)std::ceil(dt / 0.01);
  for (int k : {c - 1, c, c + 1}) if (k >= 1 && (k != 1 || dt > 0.01) && dt / k <= 0.01 * (1 + 1e-9)) n.push_back(k);
  return n;
}
static ref::Vehicle free_body() {
  ref::Vehicle b = standard(2.0);
  b.drag = 0;
  b.aero = diag(0, 0, 0);
  b.g = {0, 0, 0};
  return b;
}
// Uniform motion and constant force: closed forms
static void closed_form(mc::Run& r, bool through_sim) {
  static const std::vector<double> L = lengths(r.thorough());
  double dt = r.pick(L, "dt");
  int kind = r.choose(3, "kind");
  ref::Vehicle b = free_body();
  if (kind == 1) b.g = {0.5, -1, -9.5};
  SimSpec x = spec(b, standard_ctrl(standard()));
  x.start.v = {3, -2, 1};
  x.start.p = {10, 20, 30};
  V acc = b.g;
  ref::State a;
  V ext{};
  if (kind == 2 && !through_sim) ext = {4, -6, 8}, acc = ext / b.mass;
  if (through_sim) {
    Sim<double, 4> s(sim_params(x));
    s.update_dynamics(dt);
    a = get<double, 4>(s.get_state());
  } else {
    Dyn d(dyn_params(x));
    d.process_euler_explicit(EN<double, 4>::Zero(), dt, e3(ext));
    a = get<double, 4>(d.get_state());
  }
  r.step();
  r.near_v(a.v, x.start.v + acc * dt, 3, "velocity after constant force", dt > 150 ? 1e-7 : 1e-8);
  V lo = x.start.p + x.start.v * dt;
  for (int i = 0; i < 3; i++) {  // position between the two rectangle rules of a step no longer than 0.01 s
    double mid = lo[i] + 0.5 * acc[i] * dt * dt, dev = 0.5 * std::fabs(acc[i]) * std::min(dt, 0.01) * dt * (1 + 1e-6) + (dt > 150 ? 1e-7 : 1e-8) * (1 + std::fabs(mid));
    r.require(std::fabs(a.p[i] - mid) <= dev, "position after the time requested");
  }
  obs_state(r, a);
  r.state();
}
// The same motion in equal internal steps
static void same_motion(mc::Run& r, int veh, bool through_sim) {
  static const std::vector<double> L = [] { std::vector<double> v; for (double x : lengths(true)) if (x <= 1.3) v.push_back(x); return v; }();
  double dt = r.pick(L, "dt");
  int st = 1 + r.choose(2, "start");
  ref::Vehicle b = vehicle(veh);
  SimSpec x = spec(b, standard_ctrl(standard()));
  x.start = flight(st, 4);
  V ext = through_sim ? V{} : V{1, -2, 3};
  auto cmd = pattern(1000, 30);
  ref::State a;
  if (through_sim) {
    Sim<double, 4> s(sim_params(x));
    s.set_refence_motors_angular_velocity(cmd);
    s.arm();
    s.update_controller(0.01);
    s.update_dynamics(dt);
    a = get<double, 4>(s.get_state());
  } else {
    Dyn d(dyn_params(x));
    d.process_euler_explicit(cmd, dt, e3(ext), r.flag("noise flag"));
    a = get<double, 4>(d.get_state());
  }
  r.step();
  std::string why;
  bool ok = false;
  for (int n : splits(dt)) {
    Dyn d(dyn_params(x));
    for (int i = 0; i < n; i++) d.process_euler_explicit(cmd, dt / n < 0.01 ? dt / n : 0.01, e3(ext));
    try {
      near_state(r, a, get<double, 4>(d.get_state()), 1e-7);
      ok = true;
      break;
    } catch (const mc::Violation& v) {
      why = v.msg;
    }
  }
  if (!ok) r.fail("a step of " + mc::num(dt) + " s is not the same motion in equal internal steps: " + why);
  obs_state(r, a);
  r.state();
}
// Rejected steps change nothing, now or later
template <typename P>
static void rejects(mc::Run& r, int depth, bool floor) {
  SimSpec x = spec(crooked(), busy_ctrl(crooked()));
  x.start = flight(floor ? 5 : 1, 4);
  x.fnoise = 0.3; x.mnoise = 0.1; x.model_seed = 7;
  Sim<P, 4> a(sim_params<P, 4>(x)), b(sim_params<P, 4>(x));
  auto both = [&](auto f) { f(a); f(b); };
  both([&](Sim<P, 4>& s) {
    s.set_refence_motors_angular_velocity(pattern<P, 4>(1000, 20));
    s.arm();
    s.update_controller((P)0.01);
    if (floor) s.enable_floor_collision((P)0.5);
  });
  static const std::vector<double> bad = {0.0, -0.0, -1e-12, -0.005, -0.01, -1.0, -1e6, -INFINITY};
  for (int k = 0; k < depth; k++) {
    int o = r.choose((int)bad.size() + 7);
    r.say([&] { return "call " + std::to_string(o); });
    if (o < (int)bad.size()) {
      ref::State before = get<P, 4>(a.get_state());
      bool thrown = false;
      try {
        a.update_dynamics((P)bad[o]);
      } catch (const std::invalid_argument&) {
        thrown = true;
      }
      if (r.novel()) {
        r.require(thrown, "no invalid-argument error for a non-positive time step");
        same_state(r, get<P, 4>(a.get_state()), before);
      }
    } else
      switch (o - (int)bad.size()) {
        case 0: both([](Sim<P, 4>& s) { s.update_dynamics((P)0.01); }); break;
        case 1: both([](Sim<P, 4>& s) { s.update_dynamics((P)0.037); }); break;
        case 2: both([](Sim<P, 4>& s) { s.update_controller((P)0.01); }); break;
        case 3: both([](Sim<P, 4>& s) { s.get_dynamics().set_state(put<P, 4>(flight(2, 4))); }); break;
        case 4: both([](Sim<P, 4>& s) { s.get_dynamics().set_state(put<P, 4>(flight(3, 4))); }); break;
        case 5: both([](Sim<P, 4>& s) { s.disarm(); }); break;
        case 6: both([](Sim<P, 4>& s) { s.update_imu((P)0.01); s.update_inertial_odometry((P)0.01); }); break;
      }
    r.step();
    if (!r.novel()) continue;
    same_state(r, get<P, 4>(a.get_state()), get<P, 4>(b.get_state()));
    obs_state(r, get<P, 4>(a.get_state()));
    r.state();
  }
  both([](Sim<P, 4>& s) { s.update_dynamics((P)0.01); });
  same_state(r, get<P, 4>(a.get_state()), get<P, 4>(b.get_state()));
}
static void rejects_direct(mc::Run& r, int depth) {
  SimSpec x = spec(crooked(), busy_ctrl(crooked()));
  x.start = flight(1, 4);
  x.fnoise = 0.3; x.mnoise = 0.1; x.model_seed = 7;
  Dyn a(dyn_params(x)), b(dyn_params(x));
  static const std::vector<double> bad = {0.0, -1e-9, -0.02, -3.0};
  for (int k = 0; k < depth; k++) {
    int o = r.choose(10);
    auto cmd = pattern(o % 2 ? 900 : 1300, 11);
    if (o < 4) {
      bool thrown = false;
      try {
        a.process_euler_explicit(cmd, bad[o], e3({1, 2, 3}), true);
      } catch (const std::invalid_argument&) {
        thrown = true;
      }
      r.require(thrown, "no invalid-argument error for a non-positive time step");
    } else {
      double dt[] = {0.01, 0.003, 0.025, 0.01, 0.0999, 0.12};
      for (Dyn* d : {&a, &b}) d->process_euler_explicit(cmd, dt[o - 4], e3({o - 5.0, 1, 2}), o != 7);
    }
    r.step();
    same_state(r, get<double, 4>(a.get_state()), get<double, 4>(b.get_state()));
    r.same_v(a.get_model_const().get_stochastic_force(), b.get_model_const().get_stochastic_force(), 3, "stochastic force after a rejected step");
    obs_state(r, get<double, 4>(a.get_state()));
    r.state();
  }
}
// Splitting: many updates that add up to the same time
static void additive(mc::Run& r) {
  static const std::vector<double> parts = {0.002, 0.01, 0.0133, 0.05, 0.4};
  ref::Vehicle b = free_body();
  SimSpec x = spec(b, standard_ctrl(standard()));
  x.start.v = {1, -2, 0.5};
  Sim<double, 4> s(sim_params(x));
  double t = 0;
  int n = r.thorough() ? 7 : 5;
  for (int k = 0; k < n; k++) {
    double dt = r.pick(parts);
    s.update_dynamics(dt);
    r.step();
    t += dt;
    r.near_v(v3(s.get_state().kinematics.position), x.start.v * t, 3, "distance covered", 1e-9);
    obs_state(r, get<double, 4>(s.get_state()));
    r.state();
  }
}
// Many updates: the distance covered stays velocity times time
static void endurance(mc::Run& r, int len) {
  double dt = r.pick(std::vector<double>{0.01, 0.003, 0.0255}, "dt");
  bool reject = r.flag("rejected steps between");
  SimSpec x = spec(free_body(), standard_ctrl(standard()));
  x.start.v = {1, -2, 0.5};
  Sim<double, 4> s(sim_params(x));
  for (int k = 1; k <= len; k++) {
    s.update_dynamics(dt);
    if (reject && k % 3 == 0) { try { s.update_dynamics(k % 2 ? 0.0 : -0.1); r.fail("non-positive step accepted"); } catch (const std::invalid_argument&) {} }
    r.step();
    r.near_v(v3(s.get_state().kinematics.position), x.start.v * (dt * k), 3, "distance covered", 1e-8);
  }
  obs_state(r, get<double, 4>(s.get_state()));
  r.state();
}
// Updates of every length from unusual states, against equal internal steps
static void unusual(mc::Run& r) {
  static const std::vector<double> L = {0.01, 1e-7, 0.004, 0.0101, 0.0255, 0.2, 0.73};
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  double dt = r.pick(L, "dt");
  SimSpec x = spec(standard(), standard_ctrl(standard()));
  x.start.p = v({0.5, -1.5, 2.5}, 1e4, "position");
  x.start.v = v({0.3, -0.4, 0.2}, 100, "velocity");
  x.start.w = v({0.1, 0.2, -0.3}, 25, "rates");
  x.start.q = ref::rpy(r.wide(0.2, 10, "roll"), r.wide(-0.1, 10, "pitch"), r.wide(0.8, 10, "yaw"));
  for (auto& m : x.start.m) m = r.wide(900, 1e4, "motor speed");
  EN<double, 4> cmd = pattern(1000, 30);
  for (int i = 0; i < 4; i++) cmd[i] = r.wide(cmd[i], 1e4, "command");
  V ext = v({1, -2, 3}, 1e3, "external force");
  Dyn a(dyn_params(x));
  a.process_euler_explicit(cmd, dt, e3(ext));
  r.step();
  std::string why;
  bool ok = false;
  for (int n : splits(dt)) {
    Dyn d(dyn_params(x));
    for (int i = 0; i < n; i++) d.process_euler_explicit(cmd, dt / n < 0.01 ? dt / n : 0.01, e3(ext));
    try { near_state(r, get<double, 4>(a.get_state()), get<double, 4>(d.get_state()), 1e-6); ok = true; break; } catch (const mc::Violation& e) { why = e.msg; }
  }
  if (!ok) r.fail("a step of " + mc::num(dt) + " s is not the same motion in equal internal steps: " + why);
  obs_state(r, get<double, 4>(a.get_state()));
  r.state();
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("closed_form_dynamics", "every step length of the lattice, three force cases", 0, [](mc::Run& r) { closed_form(r, false); });
    ex.explore("closed_form_simulator", "every step length of the lattice, three force cases", 0, [](mc::Run& r) { closed_form(r, true); });
    for (int v = 0; v < 3; v++) {
      ex.explore("same_motion_dynamics_" + std::to_string(v), "every step length of the lattice up to 1.3 s", 0, [v](mc::Run& r) { same_motion(r, v, false); });
      ex.explore("same_motion_simulator_" + std::to_string(v), "every step length of the lattice up to 1.3 s", 0, [v](mc::Run& r) { same_motion(r, v, true); });
    }
    int d = ex.thorough ? 5 : 4;
    ex.explore("rejects_flying", "all sequences of 15 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { rejects<double>(r, d, false); });
    ex.explore("rejects_floor", "all sequences of 15 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { rejects<double>(r, d, true); });
    ex.explore("rejects_float", "all sequences of 15 calls, length 3", 0, [](mc::Run& r) { rejects<float>(r, 3, false); });
    ex.explore("rejects_dynamics", "all sequences of 10 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { rejects_direct(r, d); });
    ex.explore("endurance", "3 step lengths x rejected steps, 20000 updates", 0, [](mc::Run& r) { endurance(r, 20000); });
    ex.explore("unusual", "7 step lengths, every number of state, command and force unusual", ex.thorough ? 2 : 1, unusual);
    ex.explore("additive", "all sequences of 5 step lengths", 0, [](mc::Run& r) { additive(r); });
  });
}
