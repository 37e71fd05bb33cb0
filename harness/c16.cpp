// C16: a reset controller behaves like new, and settings round-trip.
#include "pidlib.hpp"
#include "sim.hpp"
using namespace qm;
using ref::V;

static Conf conf(int n, int k) {
  Conf c(n);
  c.kp = ramp(n, 2, 0.5); c.ki = ramp(n, 3, -0.4); c.kd = ramp(n, 0.1, 0.05); c.alpha = ramp(n, 0.9, -0.12);
  if (k >= 1) { c.aw = ramp(n, 0.3, 0.2); c.reset = k != 2; }
  if (k >= 2) { c.up = ramp(n, 4, 1.5); c.lo = ramp(n, -5, 0.6); }
  if (k == 3) { c.prop = true; c.kd.assign(n, 0); }
  return c;
}
static void same_conf(mc::Run& r, const Conf& a, const Conf& e, bool prop) {
  int n = e.n();
  r.same_v(a.kp, e.kp, n, "Kp read back"); r.same_v(a.ki, e.ki, n, "Ki read back"); r.same_v(a.kd, e.kd, n, "Kd read back");
  r.same_v(a.aw, e.aw, n, "anti-windup read back"); r.same_v(a.alpha, e.alpha, n, "alpha read back");
  r.same_v(a.up, e.up, n, "upper limit read back"); r.same_v(a.lo, e.lo, n, "lower limit read back");
  r.require(a.reset == e.reset, "reset flag read back");
  if (prop) r.require(a.prop == e.prop, "proportional flag read back");
}
template <typename W>
struct World {
  W p;
  Conf c;  // what was written
  bool vec, sure;  // sure: the proportional flag is determined by what was written
  explicit World(const Conf& k) : p(k), c(k), vec(W::N > 1), sure(true) {}
  static std::vector<double> act(W& p, int o) {
    const int n = W::N;
    switch (o) {
      case 0: return p.call(0.01, ramp(n, 1, -0.6));
      case 1: return p.call(0.2, alt(n, -2, 0.5));
      default: return p.call(0.05, ramp(n, -3, 1.1), alt(n, 1, 2));
    }
  }
  void write(int o) {
    const int n = W::N;
    switch (o) {
      case 3: for (auto& x : c.kp) x += 1; p.kp(c); break;
      case 4: for (auto& x : c.ki) x *= 0.5; p.ki(c); break;
      case 5: for (auto& x : c.kd) x += 0.2; p.kd(c); break;
      case 6: for (auto& x : c.kp) x -= 2; for (auto& x : c.ki) x += 0.1; for (auto& x : c.kd) x *= 3; p.gains(c); break;
      case 7: for (auto& x : c.aw) x = x * 0.25 + 0.05; p.aw(c); break;
      case 8: for (auto& x : c.alpha) x = 1 - 0.5 * x; p.alpha(c); break;
      case 9: c.reset = !c.reset; p.reset_flag(c.reset); break;
      case 10: c.up = ramp(n, 2, 0.1); c.lo = ramp(n, -1, 0.1); c.prop = false; sure = true; p.limits(c); break;
      case 11: c.up.assign(n, 0); c.lo.assign(n, 0); p.no_limits(); break;
      case 12: { Conf k = c; k.up.assign(n, 1); k.lo.assign(n, 1); k.up[0] = 2; if (n == 1) k.up[0] = 1; sure = false; p.limits(k); c.up.assign(n, 0); c.lo.assign(n, 0); break; }
      case 13: c = conf(n, 3); sure = true; p.update(c); break;
      case 14: c = conf(n, 0); sure = true; p.update(c); break;
      case 17: { bool off = true; for (double x : c.ki) off = off && x == 0; for (int i = 0; i < n; i++) c.ki[i] = off ? 2 - 0.3 * i : 0; c.reset = !c.reset; p.update(c); break; }
      case 16: c.prop = !c.prop; sure = true; p.prop_flag(c.prop); break;
      case 15: { Conf k = c; k.up.assign(n, -1); k.lo.assign(n, 1); k.prop = c.prop; p.limits(k); c.up.assign(n, 0); c.lo.assign(n, 0); break; }
    }
  }
  void check(mc::Run& r) {
    r.step();
    if (!r.novel()) return;
    same_conf(r, p.settings(), c, vec && sure);
    same_conf(r, p.getters(), c, vec && sure);
    auto g = p.gains_out();
    r.same_v(g[0], c.kp, c.n(), "Kp read back"); r.same_v(g[1], c.ki, c.n(), "Ki read back"); r.same_v(g[2], c.kd, c.n(), "Kd read back");
    r.require(p.saturating() == c.limited(), "saturation active flag");
    r.obs(p.out()); r.obs(c.kp); r.obs(c.up); r.state();
  }
};
// any history, reset, then compare with two new controllers
template <typename W>
static void reset(mc::Run& r, int depth, int after) {
  World<W> w(conf(W::N, r.choose(4, "settings")));
  for (int k = 0; k < depth; k++) {
    int o = r.choose(W::N > 1 ? 18 : 17);
    if (W::N == 1 && o == 16) o = 17;
    if (o < 3) World<W>::act(w.p, o);
    else w.write(o);
    w.check(r);
  }
  w.p.reset();
  W a(w.c), b(w.p.settings());
  same_conf(r, a.settings(), w.p.settings(), false);
  for (int k = 0; k < after; k++) {
    int o = k == 0 ? r.choose(3) : r.choose(4);
    if (o == 3) { w.p.reset(); a.reset(); b.reset(); o = 0; }
    auto x = World<W>::act(w.p, o), y = World<W>::act(a, o), z = World<W>::act(b, o);
    r.step();
    r.say([&] { return "after the reset, call " + std::to_string(o) + " -> " + str(x) + ", new controller " + str(y) + ", from settings " + str(z); });
    if (!r.novel()) continue;
    r.same_v(x, y, W::N, "reset controller against a new one");
    r.same_v(x, z, W::N, "reset controller against one built from its settings");
    r.same_v(w.p.ic(), a.ic(), W::N, "integral term"); r.same_v(w.p.dc(), a.dc(), W::N, "derivative term"); r.same_v(w.p.pc(), a.pc(), W::N, "proportional term");
    r.same_v(w.p.err(), a.err(), W::N, "reported error");
    r.require(w.p.saturating() == a.saturating() && a.saturating() == b.saturating(), "saturation active flag");
    r.obs(x); r.state();
  }
}
// changes of settings take effect at once and keep the memory
template <typename W>
static void memory(mc::Run& r, int depth) {
  World<W> w(conf(W::N, r.choose(4, "settings")));
  RPid q(w.c);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(W::N > 1 ? 18 : 17);
    if (W::N == 1 && o == 16) o = 17;
    if (o >= 3) { w.write(o); q.set(w.c); continue; }
    auto x = World<W>::act(w.p, o);
    const int n = W::N;
    if (o == 0) q.call(0.01, ramp(n, 1, -0.6));
    if (o == 1) q.call(0.2, alt(n, -2, 0.5));
    if (o == 2) q.call(0.05, ramp(n, -3, 1.1), alt(n, 1, 2));
    r.step();
    if (!r.novel()) continue;
    near_pid(r, w.p, q, x, 1e-9);
    r.obs(x); r.state();
  }
}
// ------------------------------------------------------------------ the controller stack
using Ctrl = multirotor::controller::Controller<double, 4>;
static CtrlSpec cspec(int k) { return k == 0 ? busy_ctrl(standard()) : k == 1 ? standard_ctrl(standard()) : [] { auto c = busy_ctrl(crooked()); c.rate.reset = true; c.vel.reset = true; c.traj.up = {9, 8, 7}; c.traj.lo = {-7, -8, -9}; return c; }(); }
static std::vector<double> drive(Ctrl& c, int o) {
  V p{0.3, -0.2, 1.5}, v{0.1, 0.4, -0.3}, w{0.2, -0.5, 0.1};
  auto R = em(ref::qmat(ref::rpy(0.2, -0.3, 0.5)));
  switch (o) {
    case 0: return vn(c.compute_acro_control(e3(w), 9, e3({0.5, 0.2, -0.4}), 0.01));
    case 1: return vn(c.compute_velocity_control(e3(v), R, e3(w), e3({1, -1, 0.5}), 0.3, 0.01));
    case 2: return vn(c.compute_position_control(e3(p), R, e3(v), e3(w), e3({2, 1, 3}), -0.4, 0.02));
    case 3: return vn(c.compute_trajectory_control(e3(p), e3(v), R, e3(w), e3({-1, 1, 2}), e3({0.2, 0.3, 0}), e3({0.1, 0, -0.2}), 1.2, 0.01));
    case 4: return vn(c.compute_acceleration_control(R, e3(w), e3({0.5, 0.5, 1}), 0.1, 0.05));
    default: return vn(c.compute_position_control(e3({-4, 6, 2}), R, e3({3, -2, 1}), e3({-1, 1, 2}), e3({2, 1, 3}), 2.4, 0.1));
  }
}
static void stack(mc::Run& r, int depth, int after) {
  int k = r.choose(3, "settings");
  Ctrl c(ctrl_params(cspec(k)));
  for (int i = 0; i < depth; i++) {
    int o = r.choose(8);
    if (o < 6) drive(c, o);
    else if (o == 6) { k = (k + 1) % 3; c.update_params(ctrl_params(cspec(k))); }
    else c.reset_controller();
  }
  c.reset_controller();
  Ctrl n(ctrl_params(cspec(k)));
  for (int i = 0; i < after; i++) {
    int o = r.choose(6);
    auto x = drive(c, o), y = drive(n, o);
    r.step();
    r.say([&] { return "after the reset, call " + std::to_string(o) + " -> " + str(x) + ", new controller " + str(y); });
    if (!r.novel()) continue;
    r.same_v(x, y, 4, "reset controller stack against a new one");
    r.same_v(v3(c.get_desired_angular_velocity()), v3(n.get_desired_angular_velocity()), 3, "desired rates");
    r.same(c.get_desired_thrust(), n.get_desired_thrust(), "desired thrust");
    r.obs(x); r.state();
  }
}
// stack settings read back
static void stack_settings(mc::Run& r, int depth) {
  int k = r.choose(3, "settings");
  Ctrl c(ctrl_params(cspec(k)));
  int s[5] = {k, k, k, k, k};
  for (int i = 0; i < depth; i++) {
    int o = r.choose(8);
    static const int nx[] = {1, 2, 0};
    auto next = [&](int j) { s[j] = nx[s[j]]; return ctrl_params(cspec(s[j])); };
    switch (o) {
      case 0: c.update_acro_controller_params(next(0).acro_controller_params); break;
      case 1: c.update_indi_controller_params(next(1).indi_controller_params); break;
      case 2: c.update_position_controller_params(next(2).position_controller_params); break;
      case 3: c.update_velocity_controller_params(next(3).velocity_controller_params); break;
      case 4: c.update_trajectory_controller_params(next(4).trajectory_controller_params); break;
      case 5: { for (int j = 0; j < 5; j++) s[j] = nx[s[0]]; c.update_params(ctrl_params(cspec(s[0]))); for (int j = 1; j < 5; j++) s[j] = s[0]; break; }
      case 6: drive(c, 2); drive(c, 3); break;
      case 7: c.reset_controller(); break;
    }
    if (o == 5) { for (int j = 0; j < 5; j++) s[j] = s[0]; c.update_params(ctrl_params(cspec(s[0]))); }
    r.step();
    if (!r.novel()) continue;
    auto a = cspec(s[0]), b = cspec(s[1]);
    r.same(c.get_acro_controller().get_vehicle_mass(), a.mass, "mass read back");
    r.same_v(v3(c.get_acro_controller().get_gravity()), a.g, 3, "gravity read back");
    for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) {
      r.same(c.get_acro_controller().get_kp_rot()(x, y), a.kp_rot[x][y], "attitude gain read back");
      r.same(c.get_indi_controller().get_inertia()(x, y), b.inertia[x][y], "inertia read back");
    }
    for (int x = 0; x < 4; x++) for (int y = 0; y < 6; y++) r.same(c.get_indi_controller().get_mixer_matrix_inverse()(x, y), b.alloc[x][y], "allocation read back");
    auto pid = [&](const auto& p, const PidSpec& e, const char* what) {
      auto g = p.get_params();
      r.same_v(v3(g.Kp_gains), e.kp, 3, what); r.same_v(v3(g.Ki_gains), e.ki, 3, what); r.same_v(v3(g.Kd_gains), e.kd, 3, what);
      r.same_v(v3(g.antiwindup_cte), e.aw, 3, what); r.same_v(v3(g.alpha), e.alpha, 3, what);
      r.same_v(v3(g.upper_output_saturation), e.up, 3, what); r.same_v(v3(g.lower_output_saturation), e.lo, 3, what);
      r.require(g.reset_integral_flag == e.reset && g.proportional_saturation_flag == e.prop, what);
    };
    pid(c.get_indi_controller_const(), b.rate, "rate loop settings"); pid(c.get_position_controller_const(), cspec(s[2]).pos, "position loop settings");
    pid(c.get_velocity_controller_const(), cspec(s[3]).vel, "velocity loop settings"); pid(c.get_trajectory_controller_const(), cspec(s[4]).traj, "trajectory loop settings");
    r.obs_tag(s[0] * 81 + s[1] * 27 + s[2] * 9 + s[3] * 3 + s[4]); r.state();
  }
}
// settings of every sign and size read back, a controller built from them behaves alike, a reset one too
template <typename W>
static void unusual(mc::Run& r) {
  const int n = W::N;
  static const std::vector<double> als = {0.4, 0, 1, 1e-3, 0.999, 1.5, -0.5};
  Conf c(n);
  bool aw = r.flag("anti-windup"), lim = r.flag("limits");
  c.reset = aw && r.deviate(2, "reset on sign change");
  for (int i = 0; i < n; i++) {
    c.kp[i] = r.wide(2 + i, 7e7, "kp"); c.ki[i] = r.wide(3 - i, 7e7, "ki"); c.kd[i] = r.wide(0.1 + 0.1 * i, 7e7, "kd");
    c.alpha[i] = als[r.deviate(7, "alpha")];
    if (aw) c.aw[i] = std::fabs(r.wide(0.3, 7e7, "anti-windup limit"));
    if (aw && c.aw[i] == 0) c.aw[i] = 1e-9;
    if (lim) { c.up[i] = r.wide(3, 7e7, "upper"); c.lo[i] = r.wide(-2, 7e7, "lower"); if (c.up[i] <= c.lo[i]) c.lo[i] = c.up[i] - 2 - std::fabs(c.up[i]) * 0.1; }
  }
  int route = r.choose(3, "constructor, setters or update");
  bool setters = route == 1;
  if (lim && !c.limited()) return;
  W p(route ? Conf(n) : c);
  if (route == 2) p.update(c);
  if (setters) {
    if (r.deviate(2, "one by one")) { p.kp(c); p.ki(c); p.kd(c); } else p.gains(c);
    p.aw(c); p.alpha(c); p.reset_flag(c.reset);
    if (lim) p.limits(c);
  }
  r.step();
  same_conf(r, p.settings(), c, false);
  r.require(p.saturating() == c.limited(), "saturation active flag");
  W a(p.settings());
  auto cmp = [&](W& x, W& y, const char* what) {
    for (int k = 0; k < 3; k++) {
      std::vector<double> e(n), d(n, 1.5);
      for (int i = 0; i < n; i++) e[i] = 0.6 * std::sin(1.3 * k + i);
      auto u = k == 1 ? x.call(0.02, e, d) : x.call(0.01, e), v = k == 1 ? y.call(0.02, e, d) : y.call(0.01, e);
      r.step();
      r.same_v(u, v, n, what);
    }
  };
  cmp(p, a, "controller built from the settings read back");
  W b(c);
  switch (r.deviate(4, "more history")) {
    case 1: p.call(0.5, ramp(n, r.wide(3, 7e7, "error"), 1)); break;
    case 2: { p.reset(); p.call(0.5, std::vector<double>(n, 1)); p.call(0.5, std::vector<double>(n, -1)); break; }  // the integral is back at zero
    case 3: { p.reset(); p.call(0.5, std::vector<double>(n, 0.0)); p.call(0.25, std::vector<double>(n, 2)); p.call(0.5, std::vector<double>(n, -1), std::vector<double>(n, 4)); break; }
  }
  p.reset();
  cmp(p, b, "reset controller against a new one");
  r.obs(p.out()); r.obs(c.kp); r.obs(c.ki); r.obs(c.kd); r.obs(c.up); r.obs(c.lo); r.obs(c.aw); r.state();
}
// settings written again, the same or hardly different, in the middle of a history
template <typename W>
static void again(mc::Run& r) {
  const int n = W::N;
  Conf c = conf(n, r.choose(4, "settings"));
  W p(c), q(c);
  World<W>::act(p, 0); World<W>::act(q, 0);
  Conf k = c;
  for (int i = 0; i < n; i++) {
    k.kp[i] = r.nearby(c.kp[i], "kp"); k.ki[i] = r.nearby(c.ki[i], "ki"); k.kd[i] = r.nearby(c.kd[i], "kd"); k.alpha[i] = r.nearby(c.alpha[i], "alpha");
    if (c.aw[i] != 0) k.aw[i] = r.nearby(c.aw[i], "anti-windup limit");
    if (c.limited()) { k.up[i] = r.nearby(c.up[i], "upper"); k.lo[i] = r.nearby(c.lo[i], "lower"); }
  }
  if (r.deviate(2, "reset flag")) k.reset = !k.reset;
  switch (r.choose(3, "one by one, gains together, update")) {
    case 0: p.kp(k); p.ki(k); p.kd(k); p.aw(k); p.alpha(k); p.reset_flag(k.reset); if (k.limited()) p.limits(k); break;
    case 1: p.gains(k); p.aw(k); p.alpha(k); p.reset_flag(k.reset); if (k.limited()) p.limits(k); break;
    default: p.update(k);
  }
  r.step();
  same_conf(r, p.settings(), k, n > 1);
  r.require(p.saturating() == k.limited(), "saturation active flag");
  // the accumulated state is not disturbed: as if the settings had come in the other order
  q.alpha(k); q.reset_flag(k.reset); if (k.limited()) q.limits(k);
  q.aw(k); q.kd(k); q.ki(k); q.kp(k);
  for (int o : {1, 0, 2}) {
    auto x = World<W>::act(p, o), y = World<W>::act(q, o);
    r.step();
    r.same_v(x, y, n, "settings written in another order");
    r.obs(x); r.state();
  }
}
// histories far longer than the enumerated ones before the reset
template <typename W>
static void long_reset(mc::Run& r) {
  static const std::vector<int> lens = {10, 300, 5000};
  World<W> w(conf(W::N, r.choose(4, "settings")));
  int len = r.pick(lens, "calls"), pat = r.choose(3, "pattern"), again = 1 + r.choose(3, "resets");
  for (int g = 0; g < again; g++) {
    for (int k = 0; k < len; k++) World<W>::act(w.p, pat == 2 ? k % 3 : pat);
    w.p.reset();
  }
  W a(w.c);
  for (int k = 0; k < 20; k++) {
    int o = r.deviate(3);
    auto x = World<W>::act(w.p, o), y = World<W>::act(a, o);
    r.step();
    if (!r.novel()) continue;
    r.same_v(x, y, W::N, "reset controller against a new one");
    r.obs(x); r.state();
  }
}
static void long_stack(mc::Run& r) {
  static const std::vector<int> lens = {50, 2000};
  int k = r.choose(3, "settings"), len = r.pick(lens, "calls"), o = r.choose(6), o2 = r.choose(6);
  Ctrl c(ctrl_params(cspec(k))), n(ctrl_params(cspec(k)));
  for (int i = 0; i < len; i++) drive(c, i % 2 ? o : o2);
  c.reset_controller();
  for (int i = 0; i < 12; i++) {
    int q = (i + r.deviate(6)) % 6;
    auto x = drive(c, q), y = drive(n, q);
    r.step();
    if (!r.novel()) continue;
    r.same_v(x, y, 4, "reset controller stack against a new one");
    r.obs(x); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    int d = ex.thorough ? 4 : 3, m = ex.thorough ? 5 : 4;
    std::string b = "4 settings x all histories of 16 calls, length " + std::to_string(d) + ", then reset and all sequences of 2 calls";
    ex.explore("reset_3", b, 0, [d](mc::Run& r) { reset<VPid<double, 3>>(r, d, 2); });
    ex.explore("reset_1d", b, 0, [d](mc::Run& r) { reset<SPid<double>>(r, d, 2); });
    ex.explore("reset_2", b, 0, [d](mc::Run& r) { reset<VPid<double, 2>>(r, d, 2); });
    ex.explore("reset_f", b, 0, [](mc::Run& r) { reset<VPid<double, 6>>(r, 3, 1); });
    int bu = ex.thorough ? 3 : 2;
    std::string ub = "any " + std::to_string(bu) + " settings of unusual sign or size";
    ex.explore("unusual_1d", ub, bu + 1, [](mc::Run& r) { unusual<SPid<double>>(r); });
    ex.explore("unusual_3", ub, bu, [](mc::Run& r) { unusual<VPid<double, 3>>(r); });
    ex.explore("unusual_2", ub, bu, [](mc::Run& r) { unusual<VPid<double, 2>>(r); });
    ex.explore("again_1d", "all settings written again, any number hardly different", bu, [](mc::Run& r) { again<SPid<double>>(r); });
    ex.explore("again_3", "all settings written again, any number hardly different", bu - 1, [](mc::Run& r) { again<VPid<double, 3>>(r); });
    ex.explore("long_3", "up to 15000 calls before the reset, 20 after it with " + std::to_string(bu - 1) + " departures", bu - 1, [](mc::Run& r) { long_reset<VPid<double, 3>>(r); });
    ex.explore("long_1d", "the same, scalar", bu - 1, [](mc::Run& r) { long_reset<SPid<double>>(r); });
    ex.explore("long_stack", "stack, up to 2000 calls before the reset, 12 after it", 1, [](mc::Run& r) { long_stack(r); });
    ex.explore("memory_3", "4 settings x all sequences of 16 calls, length " + std::to_string(m), 0, [m](mc::Run& r) { memory<VPid<double, 3>>(r, m); });
    ex.explore("memory_1d", "4 settings x all sequences of 16 calls, length " + std::to_string(m), 0, [m](mc::Run& r) { memory<SPid<double>>(r, m); });
    ex.explore("stack", "3 settings x all histories of 8 calls, then reset and all sequences of 3 calls", 0, [](mc::Run& r) { stack(r, r.thorough() ? 4 : 3, 3); });
    ex.explore("stack_settings", "all sequences of 8 settings calls", 0, [](mc::Run& r) { stack_settings(r, r.thorough() ? 6 : 4); });
  });
}
