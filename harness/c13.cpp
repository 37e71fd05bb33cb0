// C13: PID output never leaves its saturation limits.
#include "pidlib.hpp"
using namespace qm;

static const double INF = std::numeric_limits<double>::infinity();
struct Lim { double lo, up; };
static const std::vector<Lim>& any_limits() {
  static const std::vector<Lim> l = {{-1, 1}, {-2, 0.5}, {0, 3}, {-0.25, 0}, {1, 4}, {-6, -2}, {-1e-3, 1e3}, {-INF, 2}, {-1, INF}};
  return l;
}
static const std::vector<Lim>& zero_limits() {
  static const std::vector<Lim> l = {{-1, 1}, {-2, 0.5}, {0, 3}, {-0.25, 0}, {-1e-3, 1e3}, {-7, 40}};
  return l;
}
// Judge an output against the unlimited value and the limits
static void judge(mc::Run& r, const std::vector<double>& raw, const std::vector<double>& out, const std::vector<double>& lo,
                  const std::vector<double>& up, bool active, bool prop, double tol) {
  int n = (int)raw.size();
  r.say([&] { return "unlimited " + str(raw) + " limits " + str(lo) + str(up) + (active ? prop ? " proportional" : " plain" : " off") + " -> " + str(out); });
  if (!active) { r.near_v(out, raw, n, "output without limits", tol); return; }
  bool inside = true;
  double m = 0;
  for (int i = 0; i < n; i++) {
    double s = prop ? 1e-6 * sizeof(float) * (tol > 1e-9) + 1e-12 : 0;
    r.require(out[i] <= (s ? up[i] + s * std::fabs(up[i]) : up[i]) && out[i] >= (s ? lo[i] - s * std::fabs(lo[i]) : lo[i]), "output outside its limits");
    inside &= raw[i] <= up[i] && raw[i] >= lo[i];
    m = std::max(m, std::fabs(raw[i]));
  }
  if (inside) { r.near_v(out, raw, n, "output already within its limits", tol); return; }
  if (!prop) {
    for (int i = 0; i < n; i++) r.near(out[i], ref::clamp(raw[i], lo[i], up[i]), "clipped axis", tol);
    return;
  }
  double f = 1;
  for (int i = 0; i < n; i++) {
    if (raw[i] > up[i]) f = std::min(f, up[i] / raw[i]);
    if (raw[i] < lo[i]) f = std::min(f, lo[i] / raw[i]);
  }
  for (int i = 0; i < n; i++) r.near(out[i], f * raw[i], "scaled axis", tol, m * f + 1e-300);
}
static const std::vector<double>& raws() { static const std::vector<double> v = {0, 0.2, -0.2, 1, -1.5, 3, -8, 1e4, -1e4}; return v; }
static const std::vector<double>& huge() { static const std::vector<double> v = [] { auto w = raws(); w.push_back(1e170); w.push_back(-1e300); return w; }(); return v; }
// All limits x all unlimited outputs
template <typename W>
static void lattice(mc::Run& r, bool prop, double tol) {
  const int n = W::N;
  Conf c(n);
  auto& L = prop ? zero_limits() : any_limits();
  for (int i = 0; i < n; i++) {
    auto& l = L[i < 2 ? r.choose((int)L.size(), "limits") : (i * 2) % L.size()];
    c.lo[i] = l.lo; c.up[i] = l.up; c.kp[i] = 1;
  }
  c.prop = prop;
  std::vector<double> e(n);
  auto& X = tol > 1e-9 ? raws() : huge();
  for (int i = 0; i < n; i++) e[i] = i < 3 ? r.pick(X, "raw") : X[(i * 2) % 9];
  W p(c);
  r.step();
  r.require(p.saturating(), "valid limits refused");
  std::vector<double> raw = e;
  for (auto& x : raw) x = sizeof(tol) && tol > 1e-9 ? (double)(float)x : x;
  judge(r, raw, p.call(0.01, e), c.lo, c.up, true, prop, tol);
  r.obs(p.out()); r.state();
}
static void statics(mc::Run& r) {
  bool prop = r.flag("proportional");
  auto& L = prop ? zero_limits() : any_limits();
  std::vector<double> lo(3), up(3), x(3);
  for (int i = 0; i < 3; i++) {
    auto& l = L[r.choose((int)L.size(), "limits")];
    lo[i] = l.lo; up[i] = l.up;
    x[i] = raws()[r.choose(7, "raw")];
  }
  auto o = pid_controller::PID<double, 3>::saturate_output(en<double, 3>(x), en<double, 3>(up), en<double, 3>(lo), prop);
  r.step();
  judge(r, x, vn(o), lo, up, true, prop, 1e-12);
  if (!prop) r.near(pid_1d_controller::PID<double>::saturate_output(x[0], up[0], lo[0]), ref::clamp(x[0], lo[0], up[0]), "scalar clip", 1e-12);
  r.obs(vn(o)); r.state();
}
// All histories of limit changes and calls with all terms active
template <typename W>
static void histories(mc::Run& r, int depth, bool vec) {
  const int n = W::N;
  Conf c(n);
  c.kp = ramp(n, 2, 0.5); c.ki = ramp(n, 3, 0.4); c.kd = ramp(n, 0.01, 0.01); c.alpha = ramp(n, 0.7, -0.05); c.aw = ramp(n, 2, 0.1);
  W p(c);
  RPid q(c);  // unlimited reference
  bool on = false, prop = false;
  auto call = [&](double dt, const std::vector<double>& e, const std::vector<double>* d) {
    std::vector<double> o;
    if (d) q.call(dt, e, *d), o = p.call(dt, e, *d);
    else q.call(dt, e), o = p.call(dt, e);
    r.step();
    r.require(p.saturating() == on, on ? "limits not active" : "limits active");
    if (!r.novel()) return;
    judge(r, q.raw, o, c.lo, c.up, on, prop, 1e-9);
    r.same_v(p.out(), o, n, "reported output");
    auto a = p.pc(), b = p.ic(), k = p.dc();
    for (int i = 0; i < n; i++) r.near(a[i] + b[i] + k[i], q.raw[i], "terms", 1e-9, 10);
    r.obs(o); r.obs_tag(on * 2 + prop); r.state();
  };
  auto lim = [&](double l, double li, double u, double ui, bool pr) { c.lo = ramp(n, l, li); c.up = ramp(n, u, ui); c.prop = pr; };
  auto drop = [&] { c.lo.assign(n, 0); c.up.assign(n, 0); on = false; };
  for (int k = 0; k < depth; k++) {
    int o = r.choose(vec ? 14 : 11);
    switch (o) {
      case 0: call(0.01, ramp(n, 1, -0.7), nullptr); break;
      case 1: call(0.1, alt(n, -3, 0.5), nullptr); break;
      case 2: { auto d = ramp(n, 30, -60); call(0.05, ramp(n, 0.1, 0.1), &d); break; }
      case 3: lim(-1, -0.2, 1.5, 0.3, false); p.limits(c); on = true; prop = false; break;
      case 4: lim(-6, 0.5, -1, 0.2, false); p.limits(c); on = true; prop = false; break;
      case 5: p.no_limits(); drop(); break;
      case 6: lim(1, 0, 1, 0, false); p.limits(c); drop(); break;          // equal: refused
      case 7: lim(2, 0, -2, 0, false); p.limits(c); drop(); break;         // reversed: refused
      case 8: lim(-0.5, 0, 4, 0.1, false); p.update(c); q.set(c); on = true; prop = false; break;
      case 9: { Conf x = c; x.lo.assign(n, 0); x.up.assign(n, 0); p.update(x); drop(); break; }
      case 10: p.reset(); q.reset(); break;
      case 11: lim(-1, -0.2, 1.5, 0.3, true); p.limits(c); on = true; prop = true; break;
      case 12: lim(-0.2, 0, 0.1, 0.05, true); p.update(c); on = true; prop = true; break;
      case 13: { lim(-1, 0, 1, 0, false); c.up[n - 1] = c.lo[n - 1] - (k % 2); p.limits(c); drop(); break; }  // one bad axis
    }
  }
  call(0.02, ramp(n, -2, 1.5), nullptr);
}
// Limits, gains and errors of every sign and size, `budget` of them unusual at a time
template <typename W>
static void unusual(mc::Run& r, bool prop) {
  const int n = W::N;
  Conf c(n);
  for (int i = 0; i < n; i++) {
    c.kp[i] = r.wide(2 + i, 1e6, "kp"); c.ki[i] = r.wide(1, 1e4, "ki"); c.kd[i] = r.wide(0.1, 1e4, "kd"); c.alpha[i] = 0.5;
    c.lo[i] = r.wide(-1.5 - 0.1 * i, 7e7, "lower"); c.up[i] = r.wide(2 - 0.3 * i, 7e7, "upper");
    if (prop) c.lo[i] = -std::fabs(c.lo[i]), c.up[i] = std::fabs(c.up[i]);
  }
  c.prop = prop;
  bool on = c.limited() && !c.refused();
  W p(c);
  RPid q(c);
  for (int k = 0; k < 3; k++) {
    std::vector<double> e(n);
    for (int i = 0; i < n; i++) e[i] = r.wide(0.6 * std::sin(1.3 * k + i), 7e7, "error");
    q.call(0.01, e);
    auto o = p.call(0.01, e);
    r.step();
    r.require(p.saturating() == on, on ? "limits not active" : "limits active");
    if (!r.novel()) continue;
    double m = 1;
    for (auto& a : q.ax) m = std::max({m, std::fabs(a.P), std::fabs(a.I), std::fabs(a.D)});
    // judged against what the controller itself reports as its terms (C12 judges those)
    auto a = p.pc(), b = p.ic(), d = p.dc();
    std::vector<double> raw(n);
    for (int i = 0; i < n; i++) { raw[i] = a[i] + b[i] + d[i]; r.near(raw[i], q.raw[i], "terms", 1e-8, m); }
    if (m < 1e9) judge(r, raw, o, c.lo, c.up, on, prop, 1e-9 * m);
    else for (int i = 0; i < n; i++) if (on) r.require(o[i] <= c.up[i] + 1e-12 * std::fabs(c.up[i]) && o[i] >= c.lo[i] - 1e-12 * std::fabs(c.lo[i]), "output outside its limits");
    r.obs(o); r.state();
  }
}
// histories far longer than the enumerated ones, limits changed all the time
template <typename W>
static void endurance(mc::Run& r, int len, bool prop) {
  const int n = W::N;
  Conf c(n);
  c.kp = ramp(n, 2, 0.5); c.ki = ramp(n, 3, 0.4); c.kd = ramp(n, 0.01, 0.01); c.alpha = ramp(n, 0.7, -0.05); c.aw = ramp(n, 2, 0.1);
  c.prop = prop;
  int pat = r.choose(4, "pattern");
  c.lo = ramp(n, -1, -0.1); c.up = ramp(n, 1.5, 0.1);
  W p(c);
  RPid q(c);
  for (int k = 0; k < len; k++) {
    if (pat == 1 && k % 7 == 0) { c.lo = ramp(n, -1 - (k % 5), -0.1); c.up = ramp(n, 0.5 + k % 3, 0.1); p.limits(c); }
    if (pat == 2 && k % 11 == 0) { c.prop = W::N > 1 && !c.prop; p.limits(c); }
    if (pat == 3 && k % 13 == 5) p.no_limits();
    if (pat == 3 && k % 13 == 9) p.limits(c);
    bool on = !(pat == 3 && k % 13 >= 5 && k % 13 < 9);
    auto e = ramp(n, 3 * std::sin(0.3 * k), 2 * std::cos(0.17 * k));
    q.call(0.01, e);
    auto o = p.call(0.01, e);
    r.step();
    r.require(p.saturating() == on, "saturation flag");
    judge(r, q.raw, o, c.lo, c.up, on, c.prop, 1e-9);
    if (k % 100 == 0) { r.obs(o); r.state(); }
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("plain_3", "9^2 limit pairs x 11^3 outputs", 0, [](mc::Run& r) { lattice<VPid<double, 3>>(r, false, 1e-12); });
    ex.explore("prop_3", "6^2 limit pairs x 11^3 outputs", 0, [](mc::Run& r) { lattice<VPid<double, 3>>(r, true, 1e-12); });
    ex.explore("plain_1d", "scalar", 0, [](mc::Run& r) { lattice<SPid<double>>(r, false, 1e-12); });
    ex.explore("plain_1", "dimension 1", 0, [](mc::Run& r) { lattice<VPid<double, 1>>(r, false, 1e-12); });
    ex.explore("prop_1", "dimension 1", 0, [](mc::Run& r) { lattice<VPid<double, 1>>(r, true, 1e-12); });
    ex.explore("prop_2", "dimension 2", 0, [](mc::Run& r) { lattice<VPid<double, 2>>(r, true, 1e-12); });
    ex.explore("plain_6", "dimension 6", 0, [](mc::Run& r) { lattice<VPid<double, 6>>(r, false, 1e-12); });
    ex.explore("prop_6", "dimension 6", 0, [](mc::Run& r) { lattice<VPid<double, 6>>(r, true, 1e-12); });
    ex.explore("prop_f3", "single precision", 0, [](mc::Run& r) { lattice<VPid<float, 3>>(r, true, 1e-5); });
    ex.explore("statics", "static function, all axes free", 0, statics);
    int bu = ex.thorough ? 3 : 2;
    std::string ub = "settings, limits and 3 calls, any " + std::to_string(bu) + " numbers of unusual sign or size";
    ex.explore("unusual_1d", ub, bu + 1, [](mc::Run& r) { unusual<SPid<double>>(r, false); });
    ex.explore("unusual_3", ub, bu, [](mc::Run& r) { unusual<VPid<double, 3>>(r, false); });
    ex.explore("unusual_p3", ub + ", proportional", bu, [](mc::Run& r) { unusual<VPid<double, 3>>(r, true); });
    ex.explore("unusual_p2", ub + ", proportional", bu, [](mc::Run& r) { unusual<VPid<double, 2>>(r, true); });
    int el = ex.thorough ? 200000 : 20000;
    ex.explore("endurance", "4 patterns of limit changes, " + std::to_string(el) + " calls", 0, [el](mc::Run& r) { endurance<VPid<double, 3>>(r, el, false); });
    ex.explore("endurance_p", "the same, proportional", 0, [el](mc::Run& r) { endurance<VPid<double, 3>>(r, el, true); });
    ex.explore("endurance_1d", "the same, scalar", 0, [el](mc::Run& r) { endurance<SPid<double>>(r, el, false); });
    int d = ex.thorough ? 6 : 5;
    ex.explore("history_3", "all sequences of 14 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { histories<VPid<double, 3>>(r, d, true); });
    ex.explore("history_2", "all sequences of 14 calls, length " + std::to_string(d - 1), 0, [d](mc::Run& r) { histories<VPid<double, 2>>(r, d - 1, true); });
    ex.explore("history_1d", "all sequences of 11 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { histories<SPid<double>>(r, d, false); });
  });
}
