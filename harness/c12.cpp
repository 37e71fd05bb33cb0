// C12: the PID output follows the discrete PID law for every call history.
#include "pidlib.hpp"
using namespace qm;

// every operation of the law; settings 7 and 8 have output limits, which must not touch the terms
static Conf conf(int n, int k) {
  Conf c(n);
  switch (k) {
    case 0: c.kp = ramp(n, 2, 0.5); break;
    case 1: c.ki = ramp(n, 1.5, -0.2); break;
    case 2: c.kd = ramp(n, 0.7, 0.1); c.alpha = ramp(n, 1, 0); break;
    case 3: c.kp = ramp(n, 3, 1); c.ki = ramp(n, 0.8, 0.3); c.kd = ramp(n, 0.2, 0.05); c.alpha = ramp(n, 0.3, 0.1); break;
    case 4: c.kp = alt(n, 1, 0.2); c.ki = alt(n, 2, -0.1); c.kd = alt(n, 0.3, 0.1); c.alpha = ramp(n, 0, 0); c.aw = ramp(n, 0.02, 0.01); break;
    case 5: c.kp = ramp(n, 3, -0.4); c.ki = ramp(n, 5, 1); c.kd = ramp(n, 1, 1); c.alpha = ramp(n, 0.9, -0.15); c.aw = ramp(n, 0.5, 0.2); break;
    case 7: c = conf(n, 5); c.up = ramp(n, 2, 0.5); c.lo = ramp(n, -1.5, 0.1); break;
    case 8: c = conf(n, 3); c.up = ramp(n, 1, 0.5); c.lo = ramp(n, -0.8, 0.1); c.prop = n > 1; break;
    default: c.kp = ramp(n, 1e6, 1); c.ki = ramp(n, 1e-6, 0); c.kd = ramp(n, 1e3, 5); c.alpha = ramp(n, 0.05, 0); break;
  }
  return c;
}
template <typename W>
struct World {
  W p;
  RPid q;
  double tol;
  World(const Conf& c, double t) : p(c), q(c), tol(t) {}
  void call(mc::Run& r, double dt, const std::vector<double>& e) {
    q.call(dt, e);
    auto o = p.call(dt, e);
    r.step();
    r.say([&] { return "call dt=" + mc::num(dt) + " e=" + str(e) + " -> " + str(o); });
    if (!r.novel()) return;
    near_pid(r, p, q, o, tol);
    r.near_v(p.err(), e, W::N, "reported error", 1e-6);
    r.obs(o); r.obs(p.ic()); r.obs(p.dc()); r.state();
  }
  void call(mc::Run& r, double dt, const std::vector<double>& e, const std::vector<double>& d) {
    q.call(dt, e, d);
    auto o = p.call(dt, e, d);
    r.step();
    r.say([&] { return "call dt=" + mc::num(dt) + " e=" + str(e) + " d=" + str(d) + " -> " + str(o); });
    if (!r.novel()) return;
    near_pid(r, p, q, o, tol);
    r.near_v(p.err(), e, W::N, "reported error", 1e-6);
    r.near_v(p.derr(), d, W::N, "reported error derivative", 1e-6);
    r.obs(o); r.obs(p.ic()); r.obs(p.dc()); r.state();
  }
  void op(mc::Run& r, int o) {
    const int n = W::N;
    switch (o) {
      case 0: call(r, 0.01, ramp(n, 1, 0.3)); break;
      case 1: call(r, 0.01, alt(n, 2, -0.4)); break;
      case 2: call(r, 0.01, ramp(n, 0, 0)); break;
      case 3: call(r, 0.25, alt(n, -1.5, 0.1)); break;
      case 4: call(r, 1e-4, ramp(n, -0.3, 0.2)); break;
      case 5: call(r, 0.01, ramp(n, 0.7, -0.1), alt(n, 3, 1)); break;
      case 6: call(r, 0.1, alt(n, -4, 1), ramp(n, -2, 0.5)); break;
      case 7: p.reset(); q.reset(); r.say([] { return std::string("reset"); }); break;
      case 8: { Conf c = q.c; for (auto& x : c.kp) x = x * 0.5 + 0.1; for (auto& x : c.ki) x = x * 2 + 0.3; for (auto& x : c.kd) x = x * -1 + 0.2; p.gains(c); q.set(c); r.say([] { return std::string("change gains"); }); break; }
      case 9: { Conf c = q.c; for (auto& x : c.ki) x = 1 - x; p.ki(c); q.set(c); break; }
      case 10: { Conf c = q.c; for (auto& x : c.alpha) x = 1 - 0.5 * x; p.alpha(c); q.set(c); break; }
      case 11: { Conf c = conf(n, 5); p.update(c); q.set(c); break; }
      case 12: { Conf c = q.c; for (auto& x : c.kd) x += 0.4; for (auto& x : c.kp) x -= 0.3; p.kd(c); p.kp(c); q.set(c); break; }
      case 13: { Conf c = q.c; c.up = ramp(n, 1.2, 0.3); c.lo = ramp(n, -1, -0.1); c.prop = false; p.limits(c); q.set(c); r.say([] { return std::string("limits"); }); break; }
      case 14: { Conf c = q.c; c.up.assign(n, 0); c.lo.assign(n, 0); p.no_limits(); q.set(c); r.say([] { return std::string("no limits"); }); break; }
    }
  }
};
template <typename W>
static void histories(mc::Run& r, int depth, double tol) {
  World<W> w(conf(W::N, r.choose(9, "settings")), tol);
  for (int k = 0; k < depth; k++) w.op(r, r.choose(15));
  w.op(r, 0);
  w.op(r, 5);
}
template <typename W>
static void values(mc::Run& r, double tol) {  // error, derivative and step values
  static const std::vector<double> es = {0, 1e-9, -1e-9, 0.1, -3, 250, -1e6}, ds = {0, 1, -50, 1e4}, ts = {1e-5, 0.002, 0.01, 0.5, 3};
  World<W> w(conf(W::N, r.choose(9, "settings")), tol);
  double e1 = r.pick(es), e2 = r.pick(es), t = r.pick(ts), t2 = r.pick(ts);
  int n = W::N, f = r.choose(3, "form");
  double d = r.pick(ds);
  w.call(r, t, ramp(n, e1, e1));
  if (f == 0) w.call(r, t2, alt(n, e2, 0.1 * e2));
  else w.call(r, t2, alt(n, e2, 0.1 * e2), ramp(n, d, -d));
  if (f == 2) w.call(r, t2, ramp(n, e1, 0), ramp(n, -d, 0));
  else w.call(r, t, ramp(n, e1, 0));
}
template <typename W>
static void long_run(mc::Run& r, int len, double tol) {
  World<W> w(conf(W::N, r.choose(9, "settings")), tol);
  for (int k = 0; k < len; k++) {
    int d = r.deviate(15);
    if (d) w.op(r, d);
    w.call(r, 0.01, ramp(W::N, std::sin(0.3 * k), 0.2 * std::cos(0.17 * k)));
  }
}
template <typename W>
static void endurance(mc::Run& r, int len, double tol) {  // histories far longer than the enumerated ones
  World<W> w(conf(W::N, r.choose(9, "settings")), tol);
  int form = r.choose(3, "form");
  for (int k = 0; k < len; k++) {
    auto e = ramp(W::N, std::sin(0.3 * k), 0.2 * std::cos(0.17 * k));
    double dt = form == 2 && k % 3 ? 0.003 : 0.01;
    if (form == 1 || (form == 2 && k % 5 == 0)) w.call(r, dt, e, alt(W::N, std::cos(0.3 * k), 0.1));
    else w.call(r, dt, e);
  }
}
// Settings, errors, derivatives and steps of every sign and size, `budget` of them unusual at a time
template <typename W>
static void unusual(mc::Run& r, double tol) {
  const int n = W::N;
  static const std::vector<double> als = {0.4, 0, 1, 1e-4, 0.999}, ts = {0.01, 1e-6, 1e-3, 0.3, 7};
  Conf c(n);
  for (int i = 0; i < n; i++) {
    c.kp[i] = r.wide(2 + i, 1e4, "kp");
    c.ki[i] = r.wide(1.5 - 0.2 * i, 1e4, "ki");
    c.kd[i] = r.wide(0.3 + 0.1 * i, 1e4, "kd");
    c.alpha[i] = als[r.deviate((int)als.size(), "alpha")];
  }
  int w = r.deviate(4, "anti-windup");
  if (w) for (int i = 0; i < n; i++) c.aw[i] = (w == 1 ? 0.005 : w == 2 ? 3 : 1e6) * (1 + i);
  if (r.deviate(2, "limits")) { c.up = ramp(n, 2, 1); c.lo = ramp(n, -3, 0.2); }
  World<W> x(c, tol);
  for (int k = 0; k < 4; k++) {
    int f = r.deviate(3, "form");
    double dt = ts[r.deviate((int)ts.size(), "step")];
    std::vector<double> e(n), d(n);
    for (int i = 0; i < n; i++) e[i] = r.wide(std::sin(1.1 * k + i) + 0.2, 1e6, "error");
    if (f == 2) { x.p.reset(); x.q.reset(); }
    if (f != 1) x.call(r, dt, e);
    else {
      for (int i = 0; i < n; i++) d[i] = r.wide(std::cos(k - i), 1e6, "derivative");
      x.call(r, dt, e, d);
    }
  }
}
// the errors fed to the law
template <typename W>
static void errors(mc::Run& r) {
  const int n = W::N;
  auto num = [&](double a, double b, const char* w) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(r.wide(a + b * i, 7e7, w)); return v; };
  auto x = num(1.5, -0.75, "state"), y = num(-2.25, 0.5, "reference"), dx = num(0.25, 1.5, "state derivative"), dy = num(4.5, -0.5, "reference derivative");
  for (auto* v : {&x, &y, &dx, &dy}) for (auto& e : *v) e = W::trim(e);
  r.step();
  auto e = W::error(x, y);
  auto f = W::errors(x, y, dx, dy);
  for (int i = 0; i < n; i++) {
    r.same(e[i], W::trim(y[i] - x[i]), "error is not the reference less the state");
    r.same(f[0][i], W::trim(y[i] - x[i]), "error is not the reference less the state");
    r.same(f[1][i], W::trim(dy[i] - dx[i]), "error derivative is not the reference derivative less the state derivative");
  }
  r.obs(e); r.obs(f[1]); r.state();
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    int d = ex.thorough ? 6 : 4;
    std::string b = "9 settings x all sequences of 15 calls, length ";
    ex.explore("scalar", b + std::to_string(d), 0, [d](mc::Run& r) { histories<SPid<double>>(r, d, 1e-10); });
    ex.explore("vec3", b + std::to_string(ex.thorough ? 5 : 4), 0, [](mc::Run& r) { histories<VPid<double, 3>>(r, r.thorough() ? 5 : 4, 1e-10); });
    ex.explore("vec1", b + "3", 0, [](mc::Run& r) { histories<VPid<double, 1>>(r, r.thorough() ? 4 : 3, 1e-10); });
    ex.explore("vec2", b + "3", 0, [](mc::Run& r) { histories<VPid<double, 2>>(r, r.thorough() ? 4 : 3, 1e-10); });
    ex.explore("vec4", b + "3", 0, [](mc::Run& r) { histories<VPid<double, 4>>(r, r.thorough() ? 4 : 3, 1e-10); });
    ex.explore("vec6", b + "3", 0, [](mc::Run& r) { histories<VPid<double, 6>>(r, r.thorough() ? 4 : 3, 1e-10); });
    ex.explore("vec3_f", b + "3, single precision", 0, [](mc::Run& r) { histories<VPid<float, 3>>(r, 3, 2e-4); });
    ex.explore("scalar_f", b + "3, single precision", 0, [](mc::Run& r) { histories<SPid<float>>(r, 3, 2e-4); });
    ex.explore("errors", "any 2 numbers of unusual sign or size", 2, errors<VPid<double, 3>>);
    ex.explore("errors_1d", "the same, scalar", 2, errors<SPid<double>>);
    ex.explore("errors_f", "the same, 2 axes, single precision", 2, errors<VPid<float, 2>>);
    ex.explore("errors_1df", "the same, scalar, single precision", 2, errors<SPid<float>>);
    ex.explore("values", "settings x 7^2 errors x 5^2 steps x 3 forms x 4 derivatives", 0, [](mc::Run& r) { values<VPid<double, 3>>(r, 1e-9); });
    ex.explore("values_1d", "the same, scalar", 0, [](mc::Run& r) { values<SPid<double>>(r, 1e-9); });
    int endless = ex.thorough ? 400000 : 40000;
    ex.explore("endurance", "settings x 3 call patterns, " + std::to_string(endless) + " calls each", 0, [endless](mc::Run& r) { endurance<VPid<double, 3>>(r, endless, 1e-8); });
    ex.explore("endurance_1d", "the same, scalar", 0, [endless](mc::Run& r) { endurance<SPid<double>>(r, endless, 1e-8); });
    int bu = ex.thorough ? 3 : 2;
    std::string ub = "settings and 4 calls, any " + std::to_string(bu) + " numbers of unusual sign or size";
    ex.explore("unusual_1d", ub + ", scalar", bu + 1, [](mc::Run& r) { unusual<SPid<double>>(r, 1e-8); });
    ex.explore("unusual_2", ub + ", 2 axes", bu, [](mc::Run& r) { unusual<VPid<double, 2>>(r, 1e-8); });
    ex.explore("unusual_3", ub + ", 3 axes", 2, [](mc::Run& r) { unusual<VPid<double, 3>>(r, 1e-8); });
    int len = ex.thorough ? 60 : 30;
    ex.explore("long", "runs of " + std::to_string(len) + " calls, 2 departures anywhere", 2, [len](mc::Run& r) { long_run<VPid<double, 3>>(r, len, 1e-9); });
    ex.explore("long_1d", "the same, scalar", 2, [len](mc::Run& r) { long_run<SPid<double>>(r, len, 1e-9); });
  });
}
