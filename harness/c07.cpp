// C07: motors follow a first-order lag and never leave their speed limits.
#include <memory>
#include "sim.hpp"
using namespace qm;
using ref::V;

static const double INF = std::numeric_limits<double>::infinity();

static std::vector<ref::Rotor> bank(int n, int kind) {
  ref::Vehicle b = n == 6 ? hexa() : standard();
  for (int i = 0; i < n; i++) {
    auto& r = b.rotors[i];
    switch (kind) {
      case 0: r.lo = 0; r.hi = 2200; r.tau = 0.02; break;
      case 1: r.lo = 10 + 40 * i; r.hi = 1500 + 200 * i; r.tau = 0.012 + 0.007 * i; break;             // all distinct
      case 2: r.lo = -400 - 100 * i; r.hi = 900 - 150 * i; r.tau = 0.03 - 0.004 * i; break;            // reversible
      case 3: r.lo = i % 2 ? 700 : 0; r.hi = i % 2 ? 700 : 1000 + i; r.tau = 0.05; break;             // min == max
      case 4: r.lo = -900; r.hi = -100 - 50 * i; r.tau = 0.001 + 0.002 * i; break;                     // tau < dt
      default: r.lo = 0; r.hi = 3000 + 100 * i; r.tau = 0.3 + 0.5 * i; break;                          // slow
    }
  }
  return b.rotors;
}
template <typename P, int N>
struct World {
  multirotor::dynamics::Dynamics<P, N> d;
  std::vector<ref::Rotor> m;
  static multirotor::dynamics::Dynamics<P, N> make(const std::vector<ref::Rotor>& m, const std::vector<double>& s0) {
    ref::Vehicle b = N == 6 ? hexa() : standard();
    b.rotors = m;
    SimSpec s = spec(b, CtrlSpec());
    s.start.m = s0;
    return multirotor::dynamics::Dynamics<P, N>(dyn_params<P, N>(s));
  }
  World(const std::vector<ref::Rotor>& rot, const std::vector<double>& s0) : d(make(rot, s0)), m(rot) {}
  void step(mc::Run& r, const std::vector<double>& cmd, double dt) {
    auto before = vn(d.get_state().actuators.motor_angular_velocity);
    d.process_euler_explicit(en<P, N>(cmd), (P)dt);
    r.step();
    if (!r.novel()) return;
    auto s = vn(d.get_state().actuators.motor_angular_velocity), a = vn(d.get_state().actuators.motor_angular_acceleration);
    r.say([&] { return "dt=" + mc::num(dt) + " command " + str(cmd) + " speeds " + str(before) + " -> " + str(s); });
    const double tol = sizeof(P) == 4 ? 2e-5 : 1e-10;
    for (int i = 0; i < N; i++) {
      r.require(s[i] >= (double)(P)m[i].lo && s[i] <= (double)(P)m[i].hi, "motor speed outside its limits");
      r.finite(a[i], "motor acceleration");
      if (dt <= 0.01) {
        double acc = (ref::clamp(cmd[i], m[i].lo, m[i].hi) - before[i]) / m[i].tau;
        r.near(a[i], acc, "motor acceleration", tol, std::fabs(before[i]) / m[i].tau);
        r.near(s[i], ref::clamp(before[i] + acc * dt, m[i].lo, m[i].hi), "motor speed", tol, std::fabs(before[i]) + std::fabs(acc * dt));
      }
    }
    r.obs(s); r.obs(a); r.state();
  }
};
static std::vector<double> cmd_levels() { return {0, 800, 5000, -5000, 1e9, -1e9, INF, -INF, 1e-3}; }
static std::vector<double> start_levels() { return {0, 500, 4000, -4000, 1e6}; }

template <typename P, int N>
static void combos(mc::Run& r) {  // every combination of one command and one initial speed per motor
  auto rot = bank(N, r.choose(6, "motors"));
  static const double dts[] = {0.001, 0.01, 0.0063, 0.05};
  double dt = dts[r.choose(4, "dt")];
  static const std::vector<double> five = {0, 700, 1e5, -1e5, 1600};
  std::vector<double> c(N), s(N);
  for (int i = 0; i < N; i++) c[i] = i < 4 ? r.pick(five, "command") : 300 * i;
  int k = r.choose(4, "start");
  for (int i = 0; i < N; i++) s[i] = k == 0 ? 0 : k == 1 ? 600 + 31 * i : k == 2 ? 9000 - 4000 * i : -100 * i;
  World<P, N> w(rot, s);
  w.step(r, c, dt);
  w.step(r, c, dt);
}
template <typename P, int N>
static void levels(mc::Run& r) {  // extreme commands and start speeds, one motor at a time
  auto rot = bank(N, r.choose(6, "motors"));
  std::vector<double> c(N, 400), s(N, 300);
  int j = r.choose(N, "which");
  c[j] = r.pick(cmd_levels(), "command");
  s[j] = r.pick(start_levels(), "start");
  static const double dts[] = {1e-6, 0.001, 0.01, 0.010001, 0.1, 1.3};
  double dt = dts[r.choose(6, "dt")];
  World<P, N> w(rot, s);
  for (int k = 0; k < 3; k++) w.step(r, c, dt);
}
template <typename P, int N>
static void histories(mc::Run& r, int depth) {  // all sequences of command vectors and steps
  auto rot = bank(N, r.choose(6, "motors"));
  World<P, N> w(rot, std::vector<double>(N, 100));
  for (int k = 0; k < depth; k++) {
    int o = r.choose(8);
    std::vector<double> c(N);
    for (int i = 0; i < N; i++) {
      switch (o % 4) {
        case 0: c[i] = 300 + 250 * i; break;
        case 1: c[i] = i % 2 ? 1e7 : -1e7; break;
        case 2: c[i] = i % 2 ? 0 : 2000; break;
        default: c[i] = -250 + 500 * (i == 2); break;
      }
    }
    w.step(r, c, o < 4 ? 0.01 : 0.004);
  }
}
// The reaction of motor j depends on its own command only
static void independent(mc::Run& r) {
  auto rot = bank(4, r.choose(6, "motors"));
  static const std::vector<double> lv = {0, 900, -1e6, 1e6};
  int j = r.choose(4, "which");
  std::vector<double> c(4, r.pick(lv, "own")), s(4, 250);
  World<double, 4> a(rot, s);
  double other = r.pick(lv, "others"), os = r.pick(lv, "others' speed");
  std::vector<double> c2 = c, s2 = s;
  for (int i = 0; i < 4; i++) if (i != j) c2[i] = other, s2[i] = os;
  World<double, 4> b(rot, s2);
  for (int k = 0; k < 4; k++) {
    double dt = k % 2 ? 0.03 : 0.005;
    a.step(r, c, dt);
    b.step(r, c2, dt);
    r.same(b.d.get_state().actuators.motor_angular_velocity[j], a.d.get_state().actuators.motor_angular_velocity[j], "speed depends on other motors");
    r.same(b.d.get_state().actuators.motor_angular_acceleration[j], a.d.get_state().actuators.motor_angular_acceleration[j], "acceleration depends on other motors");
  }
}
// Through the simulator, in every mode, with floor contact
static void closed(mc::Run& r, int len) {
  ref::Vehicle b = standard();
  b.rotors = bank(4, r.choose(6, "motors"));
  SimSpec sp = spec(b, standard_ctrl(standard()));
  sp.start = flight(r.choose(6, "start"), 4);
  Sim<double, 4> s(sim_params(sp));
  int floor = r.choose(2, "floor");
  if (floor) s.enable_floor_collision(0);
  s.arm();
  int m = r.choose(6, "mode");
  s.set_control_mode(cmode(m));
  set_all_refs<double, 4>(s, r.choose(3, "references"));
  for (int k = 0; k < len; k++) {
    int d = r.deviate(4);
    if (d == 1) s.disarm();
    if (d == 2) s.set_refence_motors_angular_velocity(pattern(5e5, -4e5)), s.set_control_mode(cmode(1));
    double dt = d == 3 ? 0.2 : 0.01;
    s.update_controller(0.01);
    auto before = vn(s.get_state().actuators.motor_angular_velocity), cmd = vn(s.get_actuation_motors_angular_velocity());
    s.update_dynamics(dt);
    r.step();
    if (!r.novel()) continue;
    auto sp2 = vn(s.get_state().actuators.motor_angular_velocity), a = vn(s.get_state().actuators.motor_angular_acceleration);
    for (int i = 0; i < 4; i++) {
      auto& q = b.rotors[i];
      if (std::isnan(cmd[i])) continue;
      r.require(sp2[i] >= q.lo && sp2[i] <= q.hi, "motor speed outside its limits");
      if (dt > 0.01) continue;
      double acc = (ref::clamp(cmd[i], q.lo, q.hi) - before[i]) / q.tau;
      r.near(a[i], acc, "motor acceleration", 1e-10, std::fabs(before[i]) / q.tau);
      r.near(sp2[i], ref::clamp(before[i] + acc * dt, q.lo, q.hi), "motor speed", 1e-10, 100);
    }
    r.obs(sp2); r.state();
  }
}
// limits, time constants, commands and speeds of every size on every motor
template <typename P, int N>
static void unusual(mc::Run& r) {
  auto rot = bank(N, 1);
  std::vector<double> c(N), s(N);
  static const double tau[] = {1, 0.05, 0.3, 8, 400};
  for (int i = 0; i < N; i++) {
    auto& q = rot[i];
    q.lo = r.wide(q.lo, 1e4, "lower limit");
    q.hi = r.wide(q.hi, 1e4, "upper limit");
    if (q.hi < q.lo) std::swap(q.hi, q.lo);
    q.tau *= tau[r.deviate(5)];
    c[i] = r.wide(1000 + 20 * i, 1e8, "command");
    s[i] = r.wide(900 - 20 * i, 1e8, "speed");
  }
  static const double dts[] = {0.001, 1e-8, 0.0063, 0.01, 0.6};
  double dt = dts[r.deviate(5)];
  World<P, N> w(rot, s);
  w.step(r, c, dt);
  w.step(r, c, 0.002);
}
static void endurance(mc::Run& r, int len) {
  auto rot = bank(4, r.choose(6, "motors"));
  double dt = r.pick(std::vector<double>{0.001, 0.01}, "dt");
  std::vector<double> s0(4, 200);
  auto w = std::make_unique<World<double, 4>>(rot, s0);
  for (int k = 0; k < len; k++) {
    std::vector<double> c(4);
    for (int i = 0; i < 4; i++) c[i] = (k / 40 + i) % 5 * 600.0 - 500;
    w->step(r, c, dt);
    if (k % 40 == 39) {  // keep the speeds, forget the motion
      ref::State x;
      x.m = vn(w->d.get_state().actuators.motor_angular_velocity); x.dm.assign(4, 0);
      w->d.set_state(put<double, 4>(x));
    }
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("combos_4", "6 motor banks x 4 steps x 5^4 commands x 4 start speeds", 0, combos<double, 4>);
    ex.explore("combos_6", "the same on 6 rotors", 0, combos<double, 6>);
    ex.explore("combos_f4", "the same in single precision", 0, combos<float, 4>);
    ex.explore("levels_4", "extreme commands and speeds on each motor, steps up to 1.3 s", 0, levels<double, 4>);
    ex.explore("levels_6", "the same on 6 rotors", 0, levels<double, 6>);
    ex.explore("levels_f4", "the same in single precision", 0, levels<float, 4>);
    ex.explore("unusual_4", "limits, time constants, commands, speeds and steps unusual", ex.thorough ? 3 : 2, unusual<double, 4>);
    ex.explore("unusual_6", "the same on 6 rotors", 2, unusual<double, 6>);
    ex.explore("unusual_f4", "the same in single precision", 2, unusual<float, 4>);
    ex.explore("endurance", "6 motor banks x 2 steps, 20000 steps", 0, [](mc::Run& r) { endurance(r, 20000); });
    int d = ex.thorough ? 6 : 5;
    ex.explore("histories", "all sequences of 8 command steps, length " + std::to_string(d), 0, [d](mc::Run& r) { histories<double, 4>(r, d); });
    ex.explore("histories_6", "all sequences of 8 command steps on 6 rotors, length " + std::to_string(d - 1), 0, [d](mc::Run& r) { histories<double, 6>(r, d - 1); });
    ex.explore("independent", "each motor against all commands of the others", 0, independent);
    int len = ex.thorough ? 60 : 20;
    ex.explore("closed", "closed loop flights of " + std::to_string(len) + " steps, one departure", ex.thorough ? 2 : 1, [len](mc::Run& r) { closed(r, len); });
  });
}
