// PID controllers of any dimension (vector) and scalar, driven through one interface, with a reference.
#pragma once
#include "qm.hpp"
namespace qm {

struct Conf {  // settings of a PID of any dimension
  std::vector<double> kp, ki, kd, aw, alpha, up, lo;
  bool reset = false, prop = false;
  explicit Conf(int n) : kp(n, 0), ki(n, 0), kd(n, 0), aw(n, 0), alpha(n, 1), up(n, 0), lo(n, 0) {}
  int n() const { return (int)kp.size(); }
  bool limited() const {
    for (int i = 0; i < n(); i++) if (up[i] != 0 || lo[i] != 0) return true;
    return false;
  }
  bool refused() const {
    for (int i = 0; i < n(); i++) if (!(up[i] > lo[i])) return true;
    return false;
  }
};
template <typename P, int D>
struct VPid {  // pid_controller::PID<P, D>
  using T = pid_controller::PID<P, D>;
  static pid_controller::PIDParams<P, D> params(const Conf& c) {
    pid_controller::PIDParams<P, D> p;
    p.Kp_gains = en<P, D>(c.kp); p.Ki_gains = en<P, D>(c.ki); p.Kd_gains = en<P, D>(c.kd);
    p.antiwindup_cte = en<P, D>(c.aw); p.alpha = en<P, D>(c.alpha);
    p.reset_integral_flag = c.reset; p.proportional_saturation_flag = c.prop;
    p.upper_output_saturation = en<P, D>(c.up); p.lower_output_saturation = en<P, D>(c.lo);
    return p;
  }
  static Conf conf(const pid_controller::PIDParams<P, D>& p) {
    Conf c(D);
    c.kp = vn(p.Kp_gains); c.ki = vn(p.Ki_gains); c.kd = vn(p.Kd_gains); c.aw = vn(p.antiwindup_cte); c.alpha = vn(p.alpha);
    c.reset = p.reset_integral_flag; c.prop = p.proportional_saturation_flag;
    c.up = vn(p.upper_output_saturation); c.lo = vn(p.lower_output_saturation);
    return c;
  }
  T t;
  explicit VPid(const Conf& c) : t(params(c)) {}
  static const int N = D;
  void update(const Conf& c) { t.update_pid_params(params(c)); }
  Conf settings() const { return conf(t.get_params()); }
  void gains(const Conf& c) { t.set_gains(en<P, D>(c.kp), en<P, D>(c.ki), en<P, D>(c.kd)); }
  void kp(const Conf& c) { t.set_gains_kp(en<P, D>(c.kp)); }
  void ki(const Conf& c) { t.set_gains_ki(en<P, D>(c.ki)); }
  void kd(const Conf& c) { t.set_gains_kd(en<P, D>(c.kd)); }
  void aw(const Conf& c) { t.set_anti_windup(en<P, D>(c.aw)); }
  void alpha(const Conf& c) { t.set_alpha(en<P, D>(c.alpha)); }
  void reset_flag(bool b) { t.set_reset_integral_saturation_flag(b); }
  void limits(const Conf& c) { t.set_output_saturation(en<P, D>(c.up), en<P, D>(c.lo), c.prop); }
  static double trim(double x) { return (P)x; }
  void prop_flag(bool b) { t.set_proportional_saturation_flag(b); }
  Conf getters() const {
    Conf c(D);
    c.kp = vn(t.get_gains_kp()); c.ki = vn(t.get_gains_ki()); c.kd = vn(t.get_gains_kd()); c.aw = vn(t.get_anti_windup()); c.alpha = vn(t.get_alpha());
    c.reset = t.get_reset_integral_saturation_flag(); c.prop = t.get_proportional_saturation_flag();
    EN<P, D> a, b;
    t.get_saturation_limits(a, b);
    c.up = vn(a); c.lo = vn(b);
    return c;
  }
  std::vector<std::vector<double>> gains_out() const { EN<P, D> a, b, c; t.get_gains(a, b, c); return {vn(a), vn(b), vn(c)}; }
  static std::vector<double> error(const std::vector<double>& x, const std::vector<double>& y) { return vn(EN<P, D>(T::get_error(en<P, D>(x), en<P, D>(y)))); }
  static std::vector<std::vector<double>> errors(const std::vector<double>& x, const std::vector<double>& y, const std::vector<double>& dx, const std::vector<double>& dy) {
    EN<P, D> a, b;
    T::get_error(en<P, D>(x), en<P, D>(y), en<P, D>(dx), en<P, D>(dy), a, b);
    return {vn(a), vn(b)};
  }
  void no_limits() { t.disable_output_saturation(); }
  void reset() { t.reset_controller(); }
  bool saturating() const { return t.get_output_saturation_flag(); }
  std::vector<double> call(double dt, const std::vector<double>& e) { return vn(t.compute_control((P)dt, en<P, D>(e))); }
  std::vector<double> call(double dt, const std::vector<double>& e, const std::vector<double>& d) { return vn(t.compute_control((P)dt, en<P, D>(e), en<P, D>(d))); }
  std::vector<double> out() const { return vn(t.get_output()); }
  std::vector<double> pc() const { return vn(t.get_proportional_error_contribution()); }
  std::vector<double> ic() const { return vn(t.get_integral_error_contribution()); }
  std::vector<double> dc() const { return vn(t.get_derivative_error_contribution()); }
  std::vector<double> err() const { return vn(t.get_proportional_error()); }
  std::vector<double> derr() const { return vn(t.get_derivative_error()); }
};
template <typename P>
struct SPid {  // pid_1d_controller::PID<P>
  using T = pid_1d_controller::PID<P>;
  static pid_1d_controller::PIDParams<P> params(const Conf& c) {
    pid_1d_controller::PIDParams<P> p;
    p.Kp_gains = (P)c.kp[0]; p.Ki_gains = (P)c.ki[0]; p.Kd_gains = (P)c.kd[0];
    p.antiwindup_cte = (P)c.aw[0]; p.alpha = (P)c.alpha[0];
    p.reset_integral_flag = c.reset;
    p.upper_output_saturation = (P)c.up[0]; p.lower_output_saturation = (P)c.lo[0];
    return p;
  }
  static Conf conf(const pid_1d_controller::PIDParams<P>& p) {
    Conf c(1);
    c.kp[0] = p.Kp_gains; c.ki[0] = p.Ki_gains; c.kd[0] = p.Kd_gains; c.aw[0] = p.antiwindup_cte; c.alpha[0] = p.alpha;
    c.reset = p.reset_integral_flag; c.up[0] = p.upper_output_saturation; c.lo[0] = p.lower_output_saturation;
    return c;
  }
  T t;
  explicit SPid(const Conf& c) : t(params(c)) {}
  static const int N = 1;
  void update(const Conf& c) { t.update_params(params(c)); }
  Conf settings() const { return conf(t.get_params()); }
  void gains(const Conf& c) { t.set_gains((P)c.kp[0], (P)c.ki[0], (P)c.kd[0]); }
  void kp(const Conf& c) { t.set_kp((P)c.kp[0]); }
  void ki(const Conf& c) { t.set_ki((P)c.ki[0]); }
  void kd(const Conf& c) { t.set_kd((P)c.kd[0]); }
  void aw(const Conf& c) { t.set_anti_windup((P)c.aw[0]); }
  void alpha(const Conf& c) { t.set_alpha((P)c.alpha[0]); }
  void reset_flag(bool b) { t.set_reset_integral_saturation_flag(b); }
  void limits(const Conf& c) { t.set_output_saturation((P)c.up[0], (P)c.lo[0]); }
  static double trim(double x) { return (P)x; }
  void prop_flag(bool) {}
  Conf getters() const {
    Conf c(1);
    c.kp[0] = t.get_kp(); c.ki[0] = t.get_ki(); c.kd[0] = t.get_kd(); c.aw[0] = t.get_anti_windup(); c.alpha[0] = t.get_alpha();
    c.reset = t.get_reset_integral_saturation_flag();
    P a, b;
    t.get_saturation_limits(a, b);
    c.up[0] = a; c.lo[0] = b;
    return c;
  }
  std::vector<std::vector<double>> gains_out() const { P a, b, c; t.get_gains(a, b, c); return {{(double)a}, {(double)b}, {(double)c}}; }
  static std::vector<double> error(const std::vector<double>& x, const std::vector<double>& y) { return {(double)T::get_error((P)x[0], (P)y[0])}; }
  static std::vector<std::vector<double>> errors(const std::vector<double>& x, const std::vector<double>& y, const std::vector<double>& dx, const std::vector<double>& dy) {
    P a, b;
    T::get_error((P)x[0], (P)y[0], (P)dx[0], (P)dy[0], a, b);
    return {{(double)a}, {(double)b}};
  }
  void no_limits() { t.disable_output_saturation(); }
  void reset() { t.reset_controller(); }
  bool saturating() const { return t.get_output_saturation_flag(); }
  std::vector<double> call(double dt, const std::vector<double>& e) { return {(double)t.compute_control((P)dt, (P)e[0])}; }
  std::vector<double> call(double dt, const std::vector<double>& e, const std::vector<double>& d) { return {(double)t.compute_control((P)dt, (P)e[0], (P)d[0])}; }
  std::vector<double> out() const { return {(double)t.get_output()}; }
  std::vector<double> pc() const { return {(double)t.get_proportional_error_contribution()}; }
  std::vector<double> ic() const { return {(double)t.get_integral_error_contribution()}; }
  std::vector<double> dc() const { return {(double)t.get_derivative_error_contribution()}; }
  std::vector<double> err() const { return {(double)t.get_proportional_error()}; }
  std::vector<double> derr() const { return {(double)t.get_derivative_error()}; }
};
// Reference: one scalar law per axis, vector saturation
struct RPid {
  std::vector<ref::Pid1> ax;
  Conf c;
  std::vector<double> raw, out;
  explicit RPid(const Conf& k) : c(k) { ax.resize(k.n()); set(k); }
  void set(const Conf& k) {  // keeps the memory
    c = k;
    for (int i = 0; i < k.n(); i++) {
      auto& a = ax[i];
      a.kp = k.kp[i]; a.ki = k.ki[i]; a.kd = k.kd[i]; a.aw = k.aw[i]; a.alpha = k.alpha[i]; a.reset_flag = k.reset;
    }
  }
  void reset() { for (auto& a : ax) a.reset(); }
  void finish() {
    raw.clear();
    for (auto& a : ax) raw.push_back(a.raw);
    out = raw;
    if (!c.limited() || c.refused()) return;
    double f = 1;
    for (int i = 0; i < c.n(); i++) {
      if (!c.prop) out[i] = ref::clamp(raw[i], c.lo[i], c.up[i]);
      else if (raw[i] > c.up[i]) f = std::min(f, c.up[i] / raw[i]);
      else if (raw[i] < c.lo[i]) f = std::min(f, c.lo[i] / raw[i]);
    }
    if (c.prop) for (auto& x : out) x *= f;
  }
  void call(double dt, const std::vector<double>& e) { for (int i = 0; i < c.n(); i++) ax[i].call(dt, e[i]); finish(); }
  void call(double dt, const std::vector<double>& e, const std::vector<double>& d) { for (int i = 0; i < c.n(); i++) ax[i].call(dt, e[i], d[i]); finish(); }
};
inline std::vector<double> ramp(int n, double a, double b) {
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(a + b * i);
  return v;
}
inline std::vector<double> alt(int n, double a, double b) {
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back((i % 2 ? -1 : 1) * (a + b * i));
  return v;
}
// Compare all that a PID reports after a call with the reference
template <typename W>
void near_pid(mc::Run& r, const W& p, const RPid& q, const std::vector<double>& ret, double tol) {
  const int n = W::N;
  double m = 0;
  for (auto& a : q.ax) m = std::max({m, std::fabs(a.P), std::fabs(a.I), std::fabs(a.D)});
  auto pc = p.pc(), ic = p.ic(), dc = p.dc(), out = p.out();
  for (int i = 0; i < n; i++) {
    auto& a = q.ax[i];
    r.near(pc[i], a.P, "proportional term", tol);
    r.near(ic[i], a.I, "integral term", tol);
    r.near(dc[i], a.D, "derivative term", tol, 1 + std::fabs(a.filt));
    double s = 1 + std::fabs(a.P) + std::fabs(a.I) + std::fabs(a.D);
    r.near(out[i], q.out[i], "reported output", tol, q.c.prop ? s + m : s);
    r.near(ret[i], q.out[i], "returned output", tol, q.c.prop ? s + m : s);
    if (!p.saturating()) r.near(out[i], pc[i] + ic[i] + dc[i], "sum of the terms", tol, s);
  }
}
}  // namespace qm
