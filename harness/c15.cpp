// C15: axes of a vector PID are independent and equal scalar PIDs.
#include "pidlib.hpp"
using namespace qm;

static Conf conf(int n, int k) {
  Conf c(n);
  c.kp = ramp(n, 2, 0.5); c.ki = ramp(n, 3, -0.4); c.kd = ramp(n, 0.1, 0.05); c.alpha = ramp(n, 0.9, -0.12);
  if (k >= 1) c.aw = ramp(n, 0.3, 0.2);
  if (k >= 2) { c.up = ramp(n, 4, 1.5); c.lo = ramp(n, -5, 0.6); }
  if (k == 3) { c.reset = true; c.up = ramp(n, -1, 2); c.lo = ramp(n, -3, 0.5); }
  if (k == 4) { c.aw = alt(n, 1, 0.1); for (auto& x : c.aw) x = std::fabs(x) * (x > 0 ? 1 : 100); c.reset = true; c.kp.assign(n, 0); c.kp[0] = 7; c.up.assign(n, 0); c.lo.assign(n, 0); }
  return c;
}
static Conf axis(const Conf& c, int i) {
  Conf a(1);
  a.kp[0] = c.kp[i]; a.ki[0] = c.ki[i]; a.kd[0] = c.kd[i]; a.aw[0] = c.aw[i]; a.alpha[0] = c.alpha[i]; a.up[0] = c.up[i]; a.lo[0] = c.lo[i]; a.reset = c.reset;
  return a;
}
template <int D, typename P = double>
struct World {
  VPid<P, D> v;
  std::vector<SPid<P>> s;
  Conf c;
  std::vector<double> peak = std::vector<double>(D, 0);  // largest term so far: what is left of it after cancellation is rounding
  explicit World(const Conf& k) : v(k), c(k) { for (int i = 0; i < D; i++) s.emplace_back(axis(k, i)); }
  template <typename F> void each(F f) { for (int i = 0; i < D; i++) f(s[i], axis(c, i)); }
  void call(mc::Run& r, double dt, const std::vector<double>& e, const std::vector<double>* d) {
    auto o = d ? v.call(dt, e, *d) : v.call(dt, e);
    r.step();
    r.say([&] { return "call dt=" + mc::num(dt) + " e=" + str(e) + (d ? " d=" + str(*d) : "") + " -> " + str(o); });
    auto pc = v.pc(), ic = v.ic(), dc = v.dc();
    const double tol = sizeof(P) == 4 ? 1e-5 : 1e-12;
    for (int i = 0; i < D; i++) {
      auto so = d ? s[i].call(dt, {e[i]}, {(*d)[i]}) : s[i].call(dt, {e[i]});
      double sc = 1 + std::fabs(pc[i]) + std::fabs(ic[i]) + std::fabs(dc[i]);
      peak[i] = std::max(peak[i], sc);
      sc += 0.01 * peak[i];
      r.near(o[i], so[0], "axis output", tol, sc);
      r.near(pc[i], s[i].pc()[0], "axis proportional term", tol, sc);
      r.near(ic[i], s[i].ic()[0], "axis integral term", tol, sc);
      r.near(dc[i], s[i].dc()[0], "axis derivative term", tol, sc);
    }
    r.obs(o); r.state();
  }
  void op(mc::Run& r, int o) {
    switch (o) {
      case 0: call(r, 0.01, ramp(D, 1, -0.6), nullptr); break;
      case 1: call(r, 0.2, alt(D, 2, 0.5), nullptr); break;
      case 2: { auto d = alt(D, -1, 2); call(r, 0.05, ramp(D, -3, 1.1), &d); break; }
      case 3: { auto e = ramp(D, -0.5, 0); e[D - 1] = 1e9; call(r, 0.01, e, nullptr); break; }
      case 4: { auto e = ramp(D, 0.2, 0.3); e[0] = -1e7; auto d = ramp(D, 0, 1e5); call(r, 0.01, e, &d); break; }
      case 5: v.reset(); each([](auto& p, const Conf&) { p.reset(); }); break;
      case 6: for (int i = 0; i < D; i++) c.kp[i] *= 1.5, c.ki[i] += 0.2 * i, c.kd[i] -= 0.1; v.gains(c); each([](auto& p, const Conf& k) { p.gains(k); }); break;
      case 7: c = conf(D, 2); v.update(c); each([](auto& p, const Conf& k) { p.update(k); }); break;
      case 8: c.up.assign(D, 0); c.lo.assign(D, 0); v.no_limits(); each([](auto& p, const Conf&) { p.no_limits(); }); break;
      case 9: for (int i = 0; i < D; i++) c.alpha[i] = 0.1 + 0.13 * i, c.aw[i] = 0.05 + 0.4 * i; v.alpha(c); v.aw(c); each([](auto& p, const Conf& k) { p.alpha(k); p.aw(k); }); break;
      case 10: c.up = ramp(D, 1, 0.2); c.lo = ramp(D, 0.5, -0.3); c.prop = false; v.limits(c); each([](auto& p, const Conf& k) { p.limits(k); }); break;
    }
  }
};
template <int D, typename P = double>
static void histories(mc::Run& r, int depth) {
  World<D, P> w(conf(D, r.choose(5, "settings")));
  for (int k = 0; k < depth; k++) w.op(r, r.choose(11));
  w.op(r, 1);
}
// Two controllers that differ on all axes but one agree on that axis
template <int D>
static void isolation(mc::Run& r, int depth) {
  int k = r.choose(5, "settings"), j = r.choose(D, "axis"), m = r.choose(4, "what differs");
  Conf a = conf(D, k), b = a;
  for (int i = 0; i < D; i++) if (i != j) {
    if (m == 0) b.kp[i] = -100, b.ki[i] = 5e5, b.kd[i] = 33;
    if (m == 1) b.aw[i] = a.aw[i] == 0 ? 0 : 1e-4, b.alpha[i] = 0.01;
    if (m == 2 && a.limited()) b.up[i] = 1e6, b.lo[i] = 1e5;
  }
  VPid<double, D> x(a), y(b);
  for (int s = 0; s < depth; s++) {
    int o = r.choose(5);
    auto e = alt(D, o - 2, 0.25), f = e, d = ramp(D, o, -1), g = d;
    for (int i = 0; i < D; i++) if (i != j && m == 3) f[i] = (i % 2 ? 1e8 : -1e8), g[i] = -1e6;
    double dt = o % 2 ? 0.1 : 0.01;
    std::vector<double> p, q;
    if (o < 3) p = x.call(dt, e), q = y.call(dt, f);
    else p = x.call(dt, e, d), q = y.call(dt, f, g);
    r.step();
    r.near(q[j], p[j], "axis depends on another axis", 1e-12);
    r.near(y.ic()[j], x.ic()[j], "integral depends on another axis", 1e-12);
    r.near(y.dc()[j], x.dc()[j], "derivative depends on another axis", 1e-12);
    r.obs(p); r.obs(q); r.state();
  }
}
// Settings, errors, derivatives of every sign and size, some of them unusual
template <int D>
static void unusual(mc::Run& r) {
  static const std::vector<double> als = {0.4, 0, 1, 1e-3}, ts = {0.01, 1e-6, 0.3, 7}, aws = {0.3, 1e-4, 50};
  Conf c(D);
  bool aw = r.flag("anti-windup"), lim = r.flag("limits");
  c.reset = aw && r.deviate(2, "reset on sign change");
  for (int i = 0; i < D; i++) {
    c.kp[i] = r.wide(2 + i, 1e4, "kp"); c.ki[i] = r.wide(3 - i, 1e4, "ki"); c.kd[i] = r.wide(0.1 + 0.1 * i, 1e4, "kd");
    c.alpha[i] = als[r.deviate(4, "alpha")];
    if (aw) c.aw[i] = aws[r.deviate(3, "limit")];
    if (lim) { double w = r.wide(3, 1e4, "limit"); c.up[i] = w + 1 + i; c.lo[i] = -3 - 0.5 * i; if (c.up[i] <= c.lo[i]) c.lo[i] = c.up[i] - 2; }
  }
  World<D> w(c);
  for (int k = 0; k < 4; k++) {
    std::vector<double> e(D), d(D);
    int f = r.deviate(3, "form");
    double dt = ts[r.deviate(4, "step")];
    for (int i = 0; i < D; i++) e[i] = r.wide(std::sin(1.1 * k + i) + 0.2, 1e6, "error");
    if (f == 1) for (int i = 0; i < D; i++) d[i] = r.wide(std::cos(k - i), 1e6, "derivative");
    if (f == 2) w.op(r, 5);
    w.call(r, dt, e, f == 1 ? &d : nullptr);
  }
}
template <int D>
static void endurance(mc::Run& r, int len) {
  World<D> w(conf(D, r.choose(5, "settings")));
  int pat = r.choose(3, "pattern");
  for (int k = 0; k < len; k++) {
    auto e = ramp(D, 2 * std::sin(0.3 * k), std::cos(0.017 * k)), d = alt(D, std::cos(0.3 * k), 0.1);
    w.call(r, k % 3 ? 0.003 : 0.01, e, pat == 1 || (pat == 2 && k % 5 == 0) ? &d : nullptr);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    int d = ex.thorough ? 5 : 4;
    std::string b = "5 settings x all sequences of 11 calls, length " + std::to_string(d);
    ex.explore("dim1", b, 0, [d](mc::Run& r) { histories<1>(r, d); });
    ex.explore("dim2", b, 0, [d](mc::Run& r) { histories<2>(r, d); });
    ex.explore("dim3", b, 0, [d](mc::Run& r) { histories<3>(r, d + 1); });
    ex.explore("dim4", b, 0, [d](mc::Run& r) { histories<4>(r, d); });
    ex.explore("dim5", b, 0, [d](mc::Run& r) { histories<5>(r, d - 1); });
    ex.explore("dim6", b, 0, [d](mc::Run& r) { histories<6>(r, d); });
    ex.explore("dim3_f", b + " - 1, single precision", 0, [d](mc::Run& r) { histories<3, float>(r, d - 1); });
    int bu = ex.thorough ? 3 : 2, el = ex.thorough ? 100000 : 10000;
    std::string ub = "settings and 4 calls, any " + std::to_string(bu) + " numbers of unusual sign or size";
    ex.explore("unusual_1", ub, bu, [](mc::Run& r) { unusual<1>(r); });
    ex.explore("unusual_2", ub, bu, [](mc::Run& r) { unusual<2>(r); });
    ex.explore("unusual_3", ub, 2, [](mc::Run& r) { unusual<3>(r); });
    ex.explore("endurance_3", std::to_string(el) + " calls", 0, [el](mc::Run& r) { endurance<3>(r, el); });
    ex.explore("endurance_4", std::to_string(el) + " calls", 0, [el](mc::Run& r) { endurance<4>(r, el); });
    ex.explore("isolation_3", "each axis, 4 kinds of difference, all sequences of 5 calls, length 5", 0, [](mc::Run& r) { isolation<3>(r, 5); });
    ex.explore("isolation_6", "the same in 6 dimensions, length 4", 0, [](mc::Run& r) { isolation<6>(r, 4); });
  });
}
