// C19: process noise has the configured strength and only acts when enabled.
// The random sequence itself is taken from a twin of unit strength: noise must be sqrt(q/dt) times it.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P, int N> using Model = multirotor::model::Model<P, N>;

template <typename P, int N>
static multirotor::model::ModelParams<P, N> mparams(double qf, double qm, int v = 0) {
  ref::Vehicle b = N == 6 ? hexa() : v ? crooked() : standard();
  auto p = model_params<P, N>(b);
  p.force_process_noise_auto_correlation = (P)qf;
  p.moment_process_noise_auto_correlation = (P)qm;
  return p;
}
static double unitq(double q) { return q > 0 ? 1 : 0; }
template <typename P, int N>
struct Pair {
  Model<P, N> m, u;
  double qf, qm;
  Pair(double f, double t, int seed) : m(mparams<P, N>(f, t), seed), u(mparams<P, N>(unitq(f), unitq(t)), seed), qf(f), qm(t) {}
  void strength(double f, double t) { qf = f; qm = t; m.update_params(mparams<P, N>(f, t)); u.update_params(mparams<P, N>(unitq(f), unitq(t))); }
  void draw(mc::Run& r, double dt) {
    m.set_stochastic_noise(dt);
    u.set_stochastic_noise(dt > 0 ? 1.0 : dt);
    judge(r, dt);
  }
  void off(mc::Run& r) {
    m.disable_stochastic_noise();
    u.disable_stochastic_noise();
    judge(r, 0);
  }
  void judge(mc::Run& r, double dt) {
    r.step();
    V f = v3(m.get_stochastic_force()), t = v3(m.get_stochastic_moment()), zf = v3(u.get_stochastic_force()), zt = v3(u.get_stochastic_moment());
    r.say([&] { return "q " + mc::num(qf) + " " + mc::num(qm) + " dt " + mc::num(dt) + " force noise " + str(f) + " moment noise " + str(t); });
    const double tol = sizeof(P) == 4 ? 1e-5 : 1e-11;
    double sf = dt > 0 ? std::sqrt(qf / dt) : 0, st = dt > 0 ? std::sqrt(qm / dt) : 0;
    for (int i = 0; i < 3; i++) {
      if (sf == 0) r.same(f[i], 0, "force noise should be off");
      else { r.near(f[i], sf * zf[i], "force noise strength", tol, sf); r.require(f[i] != 0, "force noise vanished"); }
      if (st == 0) r.same(t[i], 0, "moment noise should be off");
      else { r.near(t[i], st * zt[i], "moment noise strength", tol, st); r.require(t[i] != 0, "moment noise vanished"); }
    }
    if (dt > 0 && sf > 0) r.require(f[0] != f[1] && f[1] != f[2] && f[0] != f[2], "force noise equal on two axes");
    if (dt > 0 && st > 0) r.require(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "moment noise equal on two axes");
    if (dt > 0 && st > 0 && sf > 0) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.require(zf[i] != zt[j], "force and moment noise share a draw");
    r.obs(f); r.obs(t); r.state();
  }
};
template <typename P, int N>
static void draws(mc::Run& r, int depth) {
  static const std::vector<double> qs = {0.01, 4, 0, 1e-8, 250};
  Pair<P, N> p(r.pick(qs, "force strength"), r.pick(qs, "moment strength"), 1 + r.choose(3, "seed"));
  for (int k = 0; k < depth; k++) {
    int o = r.choose(10);
    switch (o) {
      case 0: p.draw(r, 0.01); break;
      case 1: p.draw(r, 0.0003); break;
      case 2: p.draw(r, 2); break;
      case 3: p.draw(r, 0); break;
      case 4: p.draw(r, -0.01); break;
      case 5: p.off(r); break;
      case 6: p.strength(0.3, 7); break;
      case 7: p.strength(0, 0.02); break;
      case 8: p.strength(1e3, 0); break;
      case 9: p.draw(r, 1e-7); break;
    }
  }
  p.draw(r, 0.005);
  p.off(r);
}
// The unit sequence is standard normal, uncorrelated and centred
static void statistics(mc::Run& r, int n) {
  int seed = 1 + r.choose(6, "seed");
  Model<double, 4> m(mparams<double, 4>(1, 1), seed);
  double s[6] = {}, c[6][6] = {}, four[6] = {};
  for (int k = 0; k < n; k++) {
    m.set_stochastic_noise(1.0);
    double x[6];
    for (int i = 0; i < 3; i++) x[i] = m.get_stochastic_force()[i], x[3 + i] = m.get_stochastic_moment()[i];
    for (int i = 0; i < 6; i++) { s[i] += x[i]; four[i] += x[i] * x[i] * x[i] * x[i]; for (int j = 0; j < 6; j++) c[i][j] += x[i] * x[j]; }
    r.step();
  }
  const double e = 6 / std::sqrt((double)n);
  for (int i = 0; i < 6; i++) {
    r.near(s[i] / n, 0, "mean of the noise", e);
    r.near(four[i] / n, 3, "kurtosis of the noise", e, 9);
    for (int j = 0; j < 6; j++) r.near(c[i][j] / n, i == j, "covariance of the noise", e, i == j ? 0.4 : 1);
  }
  r.obs(s[0]); r.state();
}
// In the dynamics: exactly the drawn force and moment act on the motion
static void dynamics(mc::Run& r, int depth) {
  static const std::vector<double> qs = {0.02, 9, 0};
  double qf = r.pick(qs, "force strength"), qm = r.pick(qs, "moment strength");
  int veh = r.choose(2, "vehicle");
  SimSpec s = spec(veh ? crooked() : standard(), CtrlSpec());
  s.start = flight(r.choose(3, "start"), 4);
  s.fnoise = qf; s.mnoise = qm; s.model_seed = 6;
  multirotor::dynamics::Dynamics<double, 4> d(dyn_params(s));
  Model<double, 4> u(mparams<double, 4>(unitq(qf), unitq(qm)), 6);
  SimSpec quiet = s;
  quiet.fnoise = quiet.mnoise = 0;
  multirotor::dynamics::Dynamics<double, 4> z(dyn_params(quiet));
  auto cmd = pattern(1000, 40);
  for (int k = 0; k < depth; k++) {
    static const double dts[] = {0.01, 0.0002, 0.0064, 0.01, 0.004, 0.01};
    int o = r.choose(6);
    bool noise = o < 3;
    double dt = dts[o];
    V ext = o == 5 ? V{1, -2, 3} : V{};
    ref::State b = get<double, 4>(d.get_state());
    z.set_state(d.get_state());
    d.process_euler_explicit(cmd, dt, e3(ext), noise);
    if (noise) u.set_stochastic_noise(1.0);
    else z.process_euler_explicit(cmd, dt, e3(ext), k % 2 == 0);
    r.step();
    if (!r.novel()) continue;
    ref::State a = get<double, 4>(d.get_state());
    V f = v3(d.get_model().get_stochastic_force()), t = v3(d.get_model().get_stochastic_moment());
    r.say([&] { return std::string(noise ? "noisy" : "quiet") + " step of " + mc::num(dt) + " force noise " + str(f) + " moment noise " + str(t); });
    if (!noise) {
      same_state(r, a, get<double, 4>(z.get_state()));
      r.same_v(f, V{}, 3, "force noise in a quiet step"); r.same_v(t, V{}, 3, "moment noise in a quiet step");
    } else {
      r.near_v(f, std::sqrt(qf / dt) * v3(u.get_stochastic_force()), 3, "force noise in the dynamics", 1e-10);
      r.near_v(t, std::sqrt(qm / dt) * v3(u.get_stochastic_moment()), 3, "moment noise in the dynamics", 1e-10);
      ref::State e = ref::step(s.body, b, vn(cmd), dt, ext, f, t), kf = ref::step(s.body, b, vn(cmd), dt, ext, f, f);
      auto off = [](const V& x, const V& y) { return ref::norm(x - y); };
      // the known finding: the force noise is used as moment noise
      bool good = off(a.torque, e.torque) <= 1e-9 * (1 + ref::norm(e.torque)), bad = off(a.torque, kf.torque) <= 1e-9 * (1 + ref::norm(kf.torque));
      if (!good && bad) {
        r.known("moment-noise-unused");
        near_state(r, a, kf, 1e-9);
      } else {
        near_state(r, a, e, 1e-9);
      }
    }
    obs_state(r, a); r.state();
  }
}
// Long updates, made of internal steps: the noise acts over the whole of them, so momentum spreads by sqrt(q T)
static void long_updates(mc::Run& r, int n) {
  static const std::vector<double> times = {0.01, 0.004, 0.025, 0.1, 0.37}, qs = {1e-6, 1e-4};
  double T = r.pick(times, "time"), q = r.pick(qs, "strength");
  bool sim = r.flag("through the simulator");
  SimSpec s = spec(standard(), standard_ctrl(standard()));
  s.body.drag = 0;
  for (auto& x : s.body.aero) x = V{};
  s.start = flight(0, 4);
  s.start.v = s.start.w = V{};
  s.start.p = {0, 0, 100};
  s.fnoise = s.mnoise = q; s.model_seed = 2 + r.choose(3, "seed");
  SimSpec z = s;
  z.fnoise = z.mnoise = 0;
  Sim<double, 4> a(sim_params<double, 4>(s)), b(sim_params<double, 4>(z));
  auto rest = put<double, 4>(s.start);
  auto update = [&](Sim<double, 4>& x) {
    x.get_dynamics().set_state(rest);
    if (sim) x.update_dynamics(T);
    else x.get_dynamics().process_euler_explicit(EN<double, 4>::Zero(), T);
  };
  update(b);
  ref::State e = get<double, 4>(b.get_state());
  double m2[6] = {}, lag[6] = {}, old[6] = {};
  for (int k = 0; k < n; k++) {
    update(a);
    r.step();
    ref::State g = get<double, 4>(a.get_state());
    V dp = s.body.mass * (g.v - e.v), dl = ref::mul(s.body.inertia, g.w - e.w);
    for (int i = 0; i < 6; i++) {
      double x = (i < 3 ? dp[i] : dl[i - 3]) / std::sqrt(q * T);
      m2[i] += x * x; lag[i] += x * old[i]; old[i] = x;
    }
  }
  r.say([&] { return "spread of momentum over sqrt(q T), squared, after updates of " + mc::num(T) + ": " + mc::num(m2[0] / n) + " " + mc::num(m2[3] / n); });
  for (int i = 0; i < 6; i++) {
    r.near(m2[i] / n, 1, "spread of the momentum after an update", 6 * std::sqrt(2.0 / n), 0);
    r.near(lag[i] / n, 0, "noise of successive updates is correlated", 6 / std::sqrt((double)n));
  }
  r.obs(m2[0]); r.state();
}
// Zero strength: noise enabled or not makes no difference, exactly
static void zero(mc::Run& r, int len) {
  SimSpec s = spec(crooked(), standard_ctrl(standard()));
  s.start = flight(r.choose(6, "start"), 4);
  multirotor::dynamics::Dynamics<double, 4> a(dyn_params(s)), b(dyn_params(s));
  int sub = r.choose(2, "long steps");
  for (int k = 0; k < len; k++) {
    int d = r.deviate(3);
    double dt = sub ? 0.03 : 0.01;
    bool na = d != 1, nb = d == 2;
    a.process_euler_explicit(pattern(900, 50), dt, E3<double>::Zero(), na);
    b.process_euler_explicit(pattern(900, 50), dt, E3<double>::Zero(), nb);
    r.step();
    if (!r.novel()) continue;
    same_state(r, get<double, 4>(a.get_state()), get<double, 4>(b.get_state()));
    obs_state(r, get<double, 4>(a.get_state())); r.state();
  }
}
// strengths and steps of every size
template <typename P, int N>
static void unusual(mc::Run& r) {
  static const std::vector<double> qs = {0.3, 0, 1e-12, 1e-6, 1e-3, 1, 40, 1e4, 1e9}, ts = {0.01, 1e-9, 1e-6, 1e-5, 1e-4, 9.9e-4, 1.1e-3, 0.3, 1, 60, 1e5, 0, -1e-9, -5}, seeds = {1, 2, 3, 77, 65536, 2147483646};
  Pair<P, N> p(qs[r.deviate(9, "force strength")], qs[r.deviate(9, "moment strength")], (int)seeds[r.deviate(6, "seed")]);
  for (int k = 0; k < 4; k++) {
    int o = r.deviate(3);
    if (o == 1) p.off(r);
    if (o == 2) p.strength(qs[r.choose(9)], qs[r.choose(9)]);
    p.draw(r, ts[r.deviate((int)ts.size(), "step")]);
  }
}
template <typename P, int N>
static void endurance(mc::Run& r, int len) {
  static const std::vector<double> qs = {0.3, 0, 50};
  Pair<P, N> p(r.pick(qs, "force strength"), r.pick(qs, "moment strength"), 1 + r.choose(2, "seed"));
  int pat = r.choose(3, "pattern");
  for (int k = 0; k < len; k++) {
    if (pat == 1 && k % 97 == 0) p.off(r);
    if (pat == 2 && k % 101 == 0) p.strength(0.1 + k % 7, 0.2 + k % 3);
    p.draw(r, pat == 2 && k % 2 ? 0.002 : 0.01);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "25 strengths x 3 seeds x all sequences of 10 calls, length ";
    ex.explore("draws", b + (t ? "5" : "4"), 0, [t](mc::Run& r) { draws<double, 4>(r, t ? 5 : 4); });
    ex.explore("draws_f6", b + "3, single precision, 6 rotors", 0, [](mc::Run& r) { draws<float, 6>(r, 3); });
    int bu = t ? 4 : 3, el = t ? 200000 : 20000;
    ex.explore("unusual", "any " + std::to_string(bu) + " strengths, seeds or steps unusual", bu, unusual<double, 4>);
    ex.explore("unusual_f6", "any 2 unusual, single precision, 6 rotors", 2, unusual<float, 6>);
    ex.explore("endurance", std::to_string(el) + " steps", 0, [el](mc::Run& r) { endurance<double, 4>(r, el); });
    ex.explore("statistics", "6 seeds, long sequences", 0, [t](mc::Run& r) { statistics(r, t ? 1000000 : 60000); });
    ex.explore("dynamics", "strengths x starts x vehicles x all sequences of 6 steps", 0, [t](mc::Run& r) { dynamics(r, t ? 6 : 4); });
    ex.explore("long_updates", "5 times x 2 strengths x 2 ways x 3 seeds, spread over many updates", 0, [t](mc::Run& r) { long_updates(r, t ? 20000 : 2000); });
    ex.explore("zero", "zero strength runs with noise switched anywhere", 2, [t](mc::Run& r) { zero(r, t ? 60 : 30); });
  });
}
