// C05: one dynamics step obeys the Newton-Euler equations.
#include "qm.hpp"
using namespace qm;
using ref::V;

template <int N>
static void one_step(mc::Run& r, const ref::Vehicle& b, bool rich) {
  using Dyn = multirotor::dynamics::Dynamics<double, N>;
  static const auto atts = attitudes();
  static const std::vector<V> rates = {{0, 0, 0}, {1.5, 0, 0}, {0, -2, 0}, {0, 0, 3}, {0.7, -1.1, 2.3}, {-12, 9, -20}, {300, -200, 100}};
  static const std::vector<V> vels = {{0, 0, 0}, {2, 0, 0}, {0, -3, 0}, {0, 0, -4}, {-1.5, 2.5, 0.5}, {40, -30, 20}, {1e-3, -1e-3, 1e-3}};
  static const std::vector<V> exts = {{0, 0, 0}, {1.3, -0.4, 5}, {-700, 300, -90}};
  static const std::vector<double> dts = {0.001, 1e-5, 0.0037, 0.01};
  ref::State s;
  s.q = r.pick(atts, "attitude");
  s.w = r.pick(rates, "rates");
  s.v = r.pick(vels, "velocity");
  int mp = r.choose(rich ? 5 : 3, "motor pattern");
  int cp = r.choose(rich ? 4 : 3, "command pattern");
  V ext  = r.pick(exts, "external force");
  double dt = r.pick(dts, "dt");
  s.p = {1.5, -2.25, 7};
  s.m.resize(N); s.dm.assign(N, 3.0);
  std::vector<double> cmd(N);
  for (int i = 0; i < N; i++) {
    switch (mp) {
      case 0: s.m[i] = 700 + 40 * i; break;
      case 1: s.m[i] = 0; break;
      case 2: s.m[i] = (i % 2 ? -150.0 : 1200.0) + 10 * i; break;
      case 3: s.m[i] = i == 2 ? 900 : 0; break;
      default: s.m[i] = 1100; break;
    }
    switch (cp) {
      case 0: cmd[i] = 900 - 60 * i; break;
      case 1: cmd[i] = 0; break;
      case 2: cmd[i] = i % 2 ? 5000 : -5000; break;
      default: cmd[i] = s.m[i]; break;
    }
  }
  Dyn d(model_params<double, N>(b), put<double, N>(s));
  r.say([&] { return "start v=" + str(s.v) + " w=" + str(s.w) + " q=" + str(s.q) + " motors=" + str(s.m) + " cmd=" + str(cmd) + " ext=" + str(ext) + " dt=" + mc::num(dt); });
  d.process_euler_explicit(en<double, N>(cmd), dt, e3(ext), true);
  r.step();
  ref::State e = ref::step(b, s, cmd, dt, ext);
  ref::State a = get(d.get_state());
  near_state(r, a, e);
  obs_state(r, a);
  r.state();
  r.require(d.get_model_const().get_stochastic_force().isZero() && d.get_model_const().get_stochastic_moment().isZero(),
            "noise without strength");
}

// Several steps from rest under all command sequences; the reference restarts from the observed state each step
// (conformance of every transition) and is also run free (no drift).
template <int N>
static void sequence(mc::Run& r, const ref::Vehicle& b, int depth, bool dev) {
  using Dyn = multirotor::dynamics::Dynamics<double, N>;
  ref::State s;
  s.q = ref::rpy(0.2, -0.3, 0.5);
  s.w = {0.3, -0.2, 0.1};
  s.m.assign(N, 0); s.dm.assign(N, 0);
  Dyn d(model_params<double, N>(b), put<double, N>(s));
  ref::State e = s;
  for (int k = 0; k < depth; k++) {
    int op = dev ? r.deviate(8) : r.choose(8);
    std::vector<double> cmd(N);
    V ext{};
    double dt = 0.002;
    for (int i = 0; i < N; i++) cmd[i] = 800 + 15 * i;
    switch (op) {
      case 1: for (int i = 0; i < N; i++) cmd[i] = 0; break;
      case 2: for (int i = 0; i < N; i++) cmd[i] = 9000; break;
      case 3: cmd[0] = 1500; break;
      case 4: cmd[N - 1] = -400; break;
      case 5: ext = {3, -2, 8}; break;
      case 6: dt = 0.01; break;
      case 7: dt = 0.0005; for (int i = 0; i < N; i++) cmd[i] = 300 * (i + 1); break;
    }
    ref::State before = get(d.get_state());
    d.process_euler_explicit(en<double, N>(cmd), dt, e3(ext));
    r.step();
    r.say([&] { return "cmd=" + str(cmd) + " ext=" + str(ext) + " dt=" + mc::num(dt); });
    ref::State a = get(d.get_state());
    near_state(r, a, ref::step(b, before, cmd, dt, ext));
    e = ref::step(b, e, cmd, dt, ext);
    near_state(r, a, e, 1e-6);
    obs_state(r, a);
    r.state();
  }
}

// Numbers of every size in the vehicle and the state
template <int N>
static void unusual(mc::Run& r, ref::Vehicle b) {
  using Dyn = multirotor::dynamics::Dynamics<double, N>;
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  static const double f[] = {1, 0.01, 0.2, 5, 100, 1e4};
  auto scale = [&](double& x, const char* n) { int k = r.deviate(6); x *= f[k]; if (k) r.say([&] { return std::string(n) + " x " + mc::num(f[k]); }); };
  scale(b.mass, "mass"); scale(b.drag, "drag");
  double j = 1, m = 1;
  scale(j, "inertia"); scale(m, "aerodynamic matrix");
  for (int i = 0; i < 3; i++) { b.inertia[i] = j * b.inertia[i]; b.aero[i] = m * b.aero[i]; }
  b.g = v(b.g, 1e3, "gravity");
  for (int i : {0, N - 1}) {
    auto& q = b.rotors[i];
    scale(q.kf, "thrust coefficient"); scale(q.kt, "torque coefficient"); scale(q.tau, "time constant"); scale(q.inertia, "rotor inertia");
    q.pos = v(q.pos, 20, "rotor position");
    if (r.deviate(2)) q.dir = -q.dir;
  }
  ref::State s;
  s.p = v({0.5, -1.5, 2.5}, 1e8, "position");
  s.v = v({0.3, -0.4, 0.2}, 1e4, "velocity");
  s.w = v({0.1, 0.2, -0.3}, 1e3, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 10, "pitch");
  s.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  s.m.assign(N, 0); s.dm.assign(N, 0);
  std::vector<double> cmd(N);
  for (int i = 0; i < N; i++) { s.m[i] = r.wide(900, 1e4, "motor speed"); cmd[i] = r.wide(1000, 3e5, "command"); }
  V ext = v({1, -2, 3}, 1e4, "external force");
  static const double dts[] = {0.001, 1e-7, 0.0004, 0.01};
  double dt = dts[r.deviate(4)];
  Dyn d(model_params<double, N>(b), put<double, N>(s));
  for (int k = 0; k < 2; k++) {
    ref::State x = get(d.get_state());
    d.process_euler_explicit(en<double, N>(cmd), dt, e3(ext), k == 0);
    r.step();
    near_state(r, get(d.get_state()), ref::step(b, x, cmd, dt, ext), 1e-8);
  }
  obs_state(r, get(d.get_state()));
  r.state();
}
// A long flight, every step judged
static void endurance(mc::Run& r, int len) {
  using Dyn = multirotor::dynamics::Dynamics<double, 4>;
  ref::Vehicle b = vehicle(r.choose(4, "vehicle"));
  double dt = r.pick(std::vector<double>{0.001, 0.01}, "dt");
  ref::State s;
  s.m.assign(4, 800); s.dm.assign(4, 0);
  Dyn d(model_params<double, 4>(b), put<double, 4>(s));
  for (int k = 0; k < len; k++) {
    if (k % 50 == 0) { s.p = {1.0 * k, -2.0 * k, 3}; d.set_state(put<double, 4>(s)); }
    ref::State x = get(d.get_state());
    std::vector<double> cmd = {900, 900.0 + k % 7, 900, 900.0 - k % 5};
    V ext = {0.1 * (k % 3), 0, -0.2 * (k % 2)};
    d.process_euler_explicit(en<double, 4>(cmd), dt, e3(ext));
    r.step();
    near_state(r, get(d.get_state()), ref::step(b, x, cmd, dt, ext), 1e-8);
  }
  obs_state(r, get(d.get_state()));
  r.state();
}

// The vehicle, the state or both replaced between the steps, by every route the interface offers
template <int N>
static void changed(mc::Run& r, int depth) {
  using Dyn = multirotor::dynamics::Dynamics<double, N>;
  using Mod = multirotor::model::Model<double, N>;
  auto make = [&](int i) {
    if (N == 6) { ref::Vehicle v = hexa(); if (i) { v.mass *= 1 + 0.5 * i; v.drag += 0.2 * i; v.g = v.g + V{0.1 * i, 0, 0}; for (int k = 0; k < 3; k++) v.inertia[k] = (1 + 0.3 * i) * v.inertia[k]; for (auto& q : v.rotors) { q.kf *= 1 + 0.1 * i; q.kt *= 1 + 0.2 * i; q.tau *= 1 + 0.4 * i; q.inertia *= 1 + 0.7 * i; } } return v; }
    return vehicle(i);
  };
  int now = r.choose(4, "vehicle");
  ref::Vehicle b = make(now);
  ref::State s;
  s.p = {1, -2, 3}; s.v = {0.6, -0.5, 0.4}; s.w = {0.3, -0.2, 0.1}; s.q = ref::rpy(0.2, -0.3, 0.5);
  s.m.resize(N); s.dm.assign(N, 0);
  for (int i = 0; i < N; i++) s.m[i] = 700 + 30 * i;
  Dyn d(model_params<double, N>(b), put<double, N>(s)), other(model_params<double, N>(make(0)), put<double, N>(s));
  Mod& held = d.get_model();
  for (int k = 0; k < depth; k++) {
    int op = r.choose(15);
    if (op == 13) { auto J = b.inertia; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b.inertia[i][j] = J[(i + 1) % 3][(j + 1) % 3]; }  // same determinant
    if (op == 14) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) b.inertia[i][j] = (i == 2 || j == 2 ? -1 : 1) * b.inertia[i][j] + 0.1 * std::fmin(b.inertia[i][i], b.inertia[j][j]);  // same diagonal
    if (op >= 1 && op <= 7) { now = (now + 1 + (op > 5)) % 4; b = make(now); }
    auto p = model_params<double, N>(b);
    switch (op) {
      case 1: case 13: d.get_model().update_params(p); break;
      case 2: case 14: held.update_params(p); break;
      case 3: d.set_model(Mod(p)); break;
      case 4: { Mod m(p); d.set_model(&m); break; }
      case 5: d.get_model() = Mod(p); break;
      case 6: { Mod m = d.get_model_const(); m.update_params(p); held = m; break; }
      case 7: d = Dyn(p, d.get_state()); break;
      case 8: { ref::State x = s; x.q = ref::rpy(-0.7, 0.4, 2.0); x.v = {-2, 1, 0.5}; d.set_state(put<double, N>(x)); break; }
      case 9: { ref::State x = s; x.q = ref::rpy(0.2, -0.3, -1.1); x.m.assign(N, 950); auto y = put<double, N>(x); d.set_state(&y); break; }
      case 10: { Dyn c(d); d = c; break; }
      case 11: { Dyn c(d); std::swap(c, other); d = other; break; }
      case 12: { ref::State x = get<double, N>(d.get_state()); x.w = {-1, 0.5, 2}; d.set_state(put<double, N>(x)); break; }
      default: break;
    }
    r.say([&] { return "change " + std::to_string(op) + ", vehicle " + std::to_string(now); });
    for (int j = 0; j < 2; j++) {
      std::vector<double> cmd(N);
      for (int i = 0; i < N; i++) cmd[i] = 800 + 25 * i - 60 * j;
      V ext = j ? V{1, -2, 0.5} : V{};
      double dt = j ? 0.004 : 0.002;
      ref::State x = get<double, N>(d.get_state());
      d.process_euler_explicit(en<double, N>(cmd), dt, e3(ext));
      r.step();
      if (!r.novel()) continue;
      ref::State a = get<double, N>(d.get_state());
      near_state(r, a, ref::step(b, x, cmd, dt, ext));
      obs_state(r, a);
      r.state();
    }
  }
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    for (int i = 0; i < 4; i++)
      ex.explore("one_step_vehicle" + std::to_string(i), "all combinations of the start lattice, 1 step, 4 rotors", 0,
                 [i](mc::Run& r) { one_step<4>(r, vehicle(i), true); });
    ex.explore("one_step_hexa", "all combinations of the start lattice, 1 step, 6 rotors", 0,
               [](mc::Run& r) { one_step<6>(r, hexa(), r.thorough()); });
    int ub = ex.thorough ? 3 : 2;
    ex.explore("unusual_quad", "every number of vehicle, state and command unusual", ub, [](mc::Run& r) { unusual<4>(r, standard()); });
    ex.explore("unusual_crooked", "every number of vehicle, state and command unusual", 2, [](mc::Run& r) { unusual<4>(r, crooked()); });
    ex.explore("unusual_hexa", "every number of vehicle, state and command unusual", 2, [](mc::Run& r) { unusual<6>(r, hexa()); });
    ex.explore("endurance", "4 vehicles x 2 steps, 15000 steps", 0, [](mc::Run& r) { endurance(r, 15000); });
    int cd = ex.thorough ? 5 : 4;
    ex.explore("changed", "4 vehicles x all sequences of 13 ways to replace vehicle or state between steps, length " + std::to_string(cd), 0, [cd](mc::Run& r) { changed<4>(r, cd); });
    ex.explore("changed_6", "the same with 6 rotors, length 3", 0, [](mc::Run& r) { changed<6>(r, 3); });
    int depth = ex.thorough ? 6 : 4;
    for (int i = 0; i < 4; i++)
      ex.explore("sequence_vehicle" + std::to_string(i), "all sequences of 8 step kinds, length " + std::to_string(depth), 0,
                 [i, depth](mc::Run& r) { sequence<4>(r, vehicle(i), depth, false); });
    ex.explore("sequence_hexa", "all sequences of 8 step kinds, length 4", 0, [](mc::Run& r) { sequence<6>(r, hexa(), 4, false); });
    for (int i = 0; i < 2; i++)
      ex.explore("long_vehicle" + std::to_string(i), "traces of 150 steps", ex.thorough ? 2 : 1,
                 [i](mc::Run& r) { sequence<4>(r, vehicle(i), r.thorough() ? 100 : 150, true); });
  });
}
