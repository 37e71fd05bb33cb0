// C14: PID integral respects anti-windup and releases at once on sign change.
// Errors, steps and limits are binary fractions, so the sums are exact.
#include "pidlib.hpp"
using namespace qm;

struct Axis {  // the documented integral of one axis
  double aw = 0, sum = 0;
  bool flag = false, first = true;
  void call(double dt, double e) {
    if (first) sum = 0, first = false;
    if (flag && aw != 0 && std::fabs(sum) >= aw && sum * e < 0) sum = 0;
    sum += e * dt;
    if (aw != 0) sum = ref::clamp(sum, -aw, aw);
  }
};
template <typename W>
struct World {
  W p;
  Conf c;
  std::vector<Axis> ax;
  bool other;  // other terms active too
  static Conf make(const std::vector<double>& aw, bool flag, bool other) {
    Conf c((int)aw.size());
    c.aw = aw; c.reset = flag;
    for (int i = 0; i < c.n(); i++) c.ki[i] = 2.0 + 0.5 * i;
    if (other) { c.kp = ramp(c.n(), 1, 0.5); c.kd = ramp(c.n(), 0.25, 0); }
    return c;
  }
  static Conf limited(Conf c, int sat) {  // output saturation must not touch the integral
    c.prop = sat % 2;
    if (sat >= 2) { c.up = ramp(c.n(), 0.75, 0.125); c.lo = ramp(c.n(), -0.5, -0.125); }
    return c;
  }
  World(const std::vector<double>& aw, bool flag, bool o = false, int sat = 0)
      : p(limited(make(aw, flag, o), sat)), c(limited(make(aw, flag, o), sat)), ax(aw.size()), other(o || sat >= 2) { sync(); }
  void sync() { for (int i = 0; i < c.n(); i++) ax[i].aw = c.aw[i], ax[i].flag = c.reset; }
  void call(mc::Run& r, double dt, const std::vector<double>& e, bool with_d) {
    for (int i = 0; i < c.n(); i++) ax[i].call(dt, e[i]);
    auto o = with_d ? p.call(dt, e, std::vector<double>(c.n(), 0.5)) : p.call(dt, e);
    r.step();
    r.say([&] { return "call dt=" + mc::num(dt) + " e=" + str(e) + " integral term " + str(p.ic()); });
    if (!r.novel()) return;
    auto ic = p.ic();
    for (int i = 0; i < c.n(); i++) {
      double s = ic[i] / c.ki[i];
      if (c.aw[i] != 0) r.require(std::fabs(s) <= c.aw[i] * (1 + 1e-12), "integral beyond the anti-windup limit");
      r.near(s, ax[i].sum, "integral", 1e-12);
      if (!other) r.near(o[i], ic[i], "output", 1e-12);
    }
    r.obs(ic); r.state();
  }
  void reset() { p.reset(); for (auto& a : ax) a.first = true; }
};
// every sequence of errors
template <typename W>
static void errors(mc::Run& r, int depth) {
  static const std::vector<double> aws = {0, 0.5, 0.25, 3, 1.0 / 1024, 64};
  static const std::vector<double> es = {1, -1, 0.25, -0.25, 8, -8, 0};
  double aw = r.pick(aws, "limit");
  bool flag = aw != 0 && r.flag("reset on sign change");
  World<W> w(std::vector<double>(W::N, aw), flag);
  bool d = r.flag("derivative given");
  for (int k = 0; k < depth; k++) {
    double e = es[r.choose(flag ? 6 : 7)];
    w.call(r, 0.25, std::vector<double>(W::N, e), d);
  }
}
// axes with different limits and errors, settings changed and resets in between
template <typename W>
static void mixed(mc::Run& r, int depth, bool saturated = false) {
  const int n = W::N;
  bool flag = r.flag("reset on sign change");
  std::vector<double> aw(n);
  int kind = r.choose(flag ? 3 : 4, "limits");  // with no limit and the reset on the documentation leaves it open
  for (int i = 0; i < n; i++) aw[i] = kind == 3 ? 0 : kind == 0 ? 0.5 : kind == 1 ? 0.25 * (i + 1) : 4.0 / (1 << i);
  bool oth = r.flag("other terms");
  World<W> w(aw, flag, oth, saturated ? 1 + r.choose(3, "output limits") : 0);
  auto unlimited = [&] { return w.c.aw[0] == 0; };
  for (int k = 0; k < depth; k++) {
    std::vector<double> e(n);
    int o = r.choose(13);
    auto fill = [&](double a, double b) { for (int i = 0; i < n; i++) e[i] = i % 2 ? b : a; };
    switch (o) {
      case 0: fill(1, -1); w.call(r, 0.25, e, false); break;
      case 1: fill(-1, 1); w.call(r, 0.25, e, false); break;
      case 2: fill(16, 0.5); w.call(r, 0.25, e, true); break;
      case 3: fill(-0.125, -16); w.call(r, 0.5, e, false); break;
      case 4: fill(-0.125, 0.125); w.call(r, 0.125, e, true); break;
      case 5: fill(2, 2); e[n - 1] = -2; w.call(r, 0.25, e, false); break;
      case 6: w.reset(); r.say([] { return std::string("reset"); }); break;
      case 7: for (auto& x : w.c.aw) x *= 0.5; w.p.aw(w.c); w.sync(); break;
      case 8: for (auto& x : w.c.aw) x *= 4; w.p.update(w.c); w.sync(); break;
      case 9: if (unlimited()) break; w.c.reset = !w.c.reset; w.p.reset_flag(w.c.reset); w.sync(); break;
      case 11: if (unlimited()) break; w.c.reset = !w.c.reset; w.p.update(w.c); w.sync(); break;
      case 12: { bool off = unlimited(); if (!off && w.c.reset) break; for (int i = 0; i < n; i++) w.c.aw[i] = off ? 0.25 + 0.125 * i : 0; w.p.aw(w.c); w.sync(); break; }
      case 10: fill(-1, -1); w.call(r, 0.03125, e, false); break;
    }
  }
  std::vector<double> e(n, -0.25);
  w.call(r, 0.25, e, false);
}
// long wind-up, then release at any moment
template <typename W>
static void windup(mc::Run& r, int len) {
  static const std::vector<double> aws = {0, 1, 8};
  double aw = r.pick(aws, "limit");
  bool flag = aw != 0 && r.flag("reset on sign change");
  World<W> w(std::vector<double>(W::N, aw), flag);
  double s = r.flag("negative") ? -1 : 1, e = s;
  for (int k = 0; k < len; k++) {
    int d = r.deviate(4);
    if (d == 1) e = -e;
    if (d == 2) e *= 0.5;
    if (d == 3) { std::vector<double> x(W::N, e); x[0] = -e; w.call(r, 0.25, x, false); continue; }
    w.call(r, 0.25, std::vector<double>(W::N, e), false);
  }
}
// limits, errors and steps of every size (binary fractions), some of them unusual
template <typename W>
static void unusual(mc::Run& r, int len) {
  static const std::vector<double> aws = {0.5, 1.0 / 4096, 0.25, 2, 1024, 1048576}, es = {1, -1, 1.0 / 1024, -1.0 / 1024, 64, -64, 65536, -65536, 0.5, -3, 1.0 / 1073741824, -1.0 / 1073741824}, ts = {0.25, 1.0 / 1024, 1.0 / 128, 1, 8};
  const int n = W::N;
  bool flag = r.flag("reset on sign change");
  std::vector<double> aw(n);
  for (auto& a : aw) a = aws[r.deviate((int)aws.size(), "limit")];
  World<W> w(aw, flag, r.flag("other terms"), W::N > 1 ? r.choose(4, "output limits") : 0);
  for (int k = 0; k < len; k++) {
    double dt = ts[r.deviate((int)ts.size(), "step")];
    std::vector<double> e(n);
    for (auto& x : e) x = es[r.deviate((int)es.size(), "error")];
    w.call(r, dt, e, r.deviate(2, "derivative given"));
  }
}
template <typename W>
static void endurance(mc::Run& r, int len) {
  static const std::vector<double> aws = {0, 1, 8, 4096};
  double aw = r.pick(aws, "limit");
  bool flag = aw != 0 && r.flag("reset on sign change");
  World<W> w(std::vector<double>(W::N, aw), flag);
  int pat = r.choose(4, "pattern");
  static const int P[] = {1, 40, 700, 9973};
  for (int k = 0; k < len; k++) {
    std::vector<double> e(W::N);
    for (int i = 0; i < W::N; i++) e[i] = ((k / (P[pat] + i)) % 2 ? -1.0 : 1.0) * (1 + (k % 3) * 0.5) + 0.25 * (i == 0);
    for (auto& x : e) if (x == 0) x = 0.125;
    w.call(r, 0.25, e, k % 17 == 0);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    int bu = ex.thorough ? 4 : 3;
    ex.explore("unusual_1d", "settings and 5 calls, any " + std::to_string(bu) + " numbers unusual", bu, [](mc::Run& r) { unusual<SPid<double>>(r, 5); });
    ex.explore("unusual_2", "settings and 4 calls, any " + std::to_string(bu) + " numbers unusual", bu, [](mc::Run& r) { unusual<VPid<double, 2>>(r, 4); });
    ex.explore("unusual_3", "settings and 5 calls, any 2 numbers unusual", 2, [](mc::Run& r) { unusual<VPid<double, 3>>(r, 5); });
    int el = ex.thorough ? 400000 : 40000;
    ex.explore("endurance", "4 limits x 4 patterns, " + std::to_string(el) + " calls", 0, [el](mc::Run& r) { endurance<VPid<double, 3>>(r, el); });
    ex.explore("endurance_1d", "the same, scalar", 0, [el](mc::Run& r) { endurance<SPid<double>>(r, el); });
    int d = ex.thorough ? 7 : 5;
    ex.explore("errors_1d", "limits x all sequences of 7 errors, length " + std::to_string(d), 0, [d](mc::Run& r) { errors<SPid<double>>(r, d); });
    ex.explore("errors_3", "limits x all sequences of 7 errors, length " + std::to_string(d), 0, [d](mc::Run& r) { errors<VPid<double, 3>>(r, d); });
    ex.explore("errors_f", "single precision, length 4", 0, [](mc::Run& r) { errors<VPid<float, 2>>(r, 4); });
    int m = ex.thorough ? 6 : 5;
    ex.explore("mixed_3", "all sequences of 12 calls, length " + std::to_string(m), 0, [m](mc::Run& r) { mixed<VPid<double, 3>>(r, m); });
    ex.explore("mixed_1d", "all sequences of 12 calls, length " + std::to_string(m), 0, [m](mc::Run& r) { mixed<SPid<double>>(r, m); });
    ex.explore("mixed_6", "all sequences of 12 calls, length 4", 0, [](mc::Run& r) { mixed<VPid<double, 6>>(r, 4); });
    int l = ex.thorough ? 5 : 4;
    ex.explore("saturated_3", "output limits x all sequences of 12 calls, length " + std::to_string(l), 0, [l](mc::Run& r) { mixed<VPid<double, 3>>(r, l, true); });
    ex.explore("saturated_1d", "output limits x all sequences of 12 calls, length " + std::to_string(l), 0, [l](mc::Run& r) { mixed<SPid<double>>(r, l, true); });
    ex.explore("windup", "runs of 50 calls, 3 departures anywhere", ex.thorough ? 4 : 3, [](mc::Run& r) { windup<VPid<double, 3>>(r, 50); });
    ex.explore("windup_1d", "runs of 50 calls, 3 departures anywhere", 3, [](mc::Run& r) { windup<SPid<double>>(r, 50); });
  });
}
