// C20: the IMU reads the true motion in its own frame plus bias and noise of the configured strength.
// The random sequence is taken from a twin of unit strength with the same seed, at rest.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P> using Imu = imu::IMU<P>;
static double on(double x) { return x > 0 ? 1 : 0; }
struct Reading { V g, a, bg, ba; };
template <typename P>
static Reading read(const Imu<P>& i) {
  Sensors s;
  imu_into(s, i);
  return {s.gyro, s.accel, s.gbias, s.abias};
}
static void same_reading(mc::Run& r, const Reading& a, const Reading& b) {
  r.same_v(a.g, b.g, 3, "gyroscope"); r.same_v(a.a, b.a, 3, "accelerometer");
  r.same_v(a.bg, b.bg, 3, "gyroscope bias"); r.same_v(a.ba, b.ba, 3, "accelerometer bias");
}
static const std::vector<std::pair<V, V>>& motions() {  // specific force, body rates
  static const std::vector<std::pair<V, V>> m = {{{1, -2, 3}, {0.4, 0.5, -0.6}}, {{0, 0, 0}, {0, 0, 0}}, {{-150, 40, 9.81}, {-20, 0.01, 35}}};
  return m;
}
template <typename P>
struct Pair {
  double vg, va, wg, wa;  // noise variances and random walks
  ref::Q q;
  Imu<P> m, u;
  Pair(double a, double b, double c, double d, const ref::Q& o, int seed, bool by_params)
      : vg(a), va(b), wg(c), wa(d), q(o), m(make(a, b, c, d, o, seed, by_params)), u(make(on(a), on(b), on(c), on(d), ref::Q{}, seed, false)) {}
  static Imu<P> make(double a, double b, double c, double d, const ref::Q& o, int seed, bool by_params) {
    if (!by_params) return Imu<P>((P)a, (P)b, (P)c, (P)d, eq<P>(o), seed);
    imu::IMUParams<P> p;
    p.gyro_noise_var = (P)a; p.accel_noise_var = (P)b; p.gyro_bias_noise_autocorr_time = (P)c; p.accel_bias_noise_autocorr_time = (P)d;
    p.imu_orientation = eq<P>(o); p.seed = seed;
    return Imu<P>(p);
  }
  void config(mc::Run& r) {
    P x, y;
    m.get_variances(x, y);
    r.same(x, (P)vg, "gyroscope variance reported"); r.same(y, (P)va, "accelerometer variance reported");
  }
  void variances(double a, double b) { vg = a; va = b; m.set_noise_variances((P)a, (P)b); u.set_noise_variances((P)on(a), (P)on(b)); }
  void walks(double a, double b) { wg = a; wa = b; m.set_bias_autocorrelation_time((P)a, (P)b); u.set_bias_autocorrelation_time((P)on(a), (P)on(b)); }
  void bias(mc::Run& r, const V& g, const V& a, double x, double y) {
    Reading b = read(m);
    m.set_bias(e3<P>(g), e3<P>(a), (P)x, (P)y);
    walks_only_twin(x, y);
    Reading c = read(m);
    r.step();
    for (int i = 0; i < 3; i++) { r.same(c.bg[i], (P)g[i], "gyroscope bias set"); r.same(c.ba[i], (P)a[i], "accelerometer bias set"); }
    r.same_v(c.g, b.g, 3, "gyroscope"); r.same_v(c.a, b.a, 3, "accelerometer");
  }
  void walks_only_twin(double x, double y) { wg = x; wa = y; u.set_bias_autocorrelation_time((P)on(x), (P)on(y)); }
  void mount(const ref::Q& o) { q = o; m.set_orientation(eq<P>(o)); }
  void reset(mc::Run& r) {
    m.reset(); u.reset();
    r.step();
    same_reading(r, read(m), Reading{});
    config(r);
  }
  void seed(int s) { m.set_random_seed(s); u.set_random_seed(s); }
  void nothing(mc::Run& r, double dt) {
    Reading b = read(m);
    m.update((P)dt, e3<P>({5, 6, 7}), e3<P>({1, 2, 3}));
    r.step();
    same_reading(r, read(m), b);
  }
  void update(mc::Run& r, double dt, const V& f, const V& w) {
    Reading b = read(m), ub = read(u);
    m.update((P)dt, e3<P>(f), e3<P>(w));
    u.update((P)1, e3<P>({0, 0, 0}), e3<P>({0, 0, 0}));
    r.step();
    if (!r.novel()) return;
    Reading c = read(m), uc = read(u);
    r.say([&] { return "dt " + mc::num(dt) + " force " + str(f) + " rates " + str(w) + " -> gyro " + str(c.g) + " accel " + str(c.a) + " biases " + str(c.bg) + str(c.ba); });
    const double tol = sizeof(P) == 4 ? 4e-5 : 1e-11;
    V tg = ref::rotinv(q, w), ta = ref::rotinv(q, f);
    std::vector<double> z;
    auto one = [&](double before, double after, double ub, double uc, double s, const char* what) {
      if (s == 0) { r.same(after, before, what); return; }
      r.near(after - before, s * (uc - ub), what, tol, s + std::fabs(before) + std::fabs(ub) * s);
      r.require(after != before, what);
      z.push_back(uc - ub);
    };
    auto two = [&](double reading, double truth, double bias, double ur, double ubias, double s, const char* what) {
      r.near(reading - truth - bias, s * (ur - ubias), what, tol, s + std::fabs(reading) + std::fabs(bias) + ref::norm(f) + std::fabs(ubias) * s);
      if (s > 0) z.push_back(ur - ubias);
    };
    for (int i = 0; i < 3; i++) {
      one(b.bg[i], c.bg[i], ub.bg[i], uc.bg[i], std::sqrt(wg * dt), "gyroscope bias walk");
      one(b.ba[i], c.ba[i], ub.ba[i], uc.ba[i], std::sqrt(wa * dt), "accelerometer bias walk");
      two(c.g[i], tg[i], c.bg[i], uc.g[i], uc.bg[i], std::sqrt(vg), "gyroscope reading");
      two(c.a[i], ta[i], c.ba[i], uc.a[i], uc.ba[i], std::sqrt(va), "accelerometer reading");
    }
    for (size_t i = 0; i < z.size(); i++) for (size_t j = 0; j < i; j++) r.require(std::fabs(z[i] - z[j]) > 1e-10, "two noise channels share a draw");
    r.obs(c.g); r.obs(c.a); r.obs(c.bg); r.obs(c.ba); r.state();
  }
};
static const std::vector<std::array<double, 4>>& strengths() {
  static const std::vector<std::array<double, 4>> s = {{0, 0, 0, 0}, {0.01, 0.09, 0.0004, 0.0025}, {4, 0, 0, 1}, {0, 2e-6, 3, 0}, {0, 0, 0.02, 0.5}, {1e-4, 25, 0, 0}};
  return s;
}
static const std::vector<ref::Q>& mounts() {
  static const std::vector<ref::Q> m = {ref::Q{}, ref::rpy(0.3, -0.8, 2.0), ref::rpy(M_PI, 0, 0), ref::rpy(0, 0, M_PI / 2), ref::Q{-0.5, 0.5, 0.5, -0.5}};
  return m;
}
template <typename P>
static void calls(mc::Run& r, int depth) {
  auto s = r.pick(strengths(), "strengths");
  ref::Q q = r.pick(mounts(), "mounting");
  Pair<P> p(s[0], s[1], s[2], s[3], q, 3 + r.choose(2, "seed"), r.flag("by parameters"));
  p.config(r);
  if (s[0] == 0) r.same_v(read(p.m).bg, V{}, 3, "gyroscope bias of a noise free sensor");
  if (s[1] == 0) r.same_v(read(p.m).ba, V{}, 3, "accelerometer bias of a noise free sensor");
  r.same_v(read(p.m).g, V{}, 3, "gyroscope before the first update"); r.same_v(read(p.m).a, V{}, 3, "accelerometer before the first update");
  auto up = [&](double dt, int k) { p.update(r, dt, motions()[k].first, motions()[k].second); };
  for (int k = 0; k < depth; k++) {
    switch (r.choose(17)) {
      case 0: up(0.01, 0); break;
      case 1: up(0.0016, 1); break;
      case 2: up(2.25, 2); break;
      case 3: p.nothing(r, 0); break;
      case 4: p.nothing(r, -0.02); break;
      case 5: p.reset(r); break;
      case 6: p.mount(mounts()[1]); break;
      case 7: p.mount(mounts()[4]); break;
      case 8: p.variances(0.16, 0.0025); break;
      case 9: p.variances(0, 3); break;
      case 10: p.walks(0.09, 7); break;
      case 11: p.bias(r, {0.1, -0.2, 0.3}, {1, 2, -3}, 0, 0.01); break;
      case 12: p.seed(17); break;
      case 13: p.bias(r, {0, 0, 0}, {0, 0, 0}, 0, 0); break;
      case 14: p.bias(r, {-1, 2, 0.3}, {0, 2, 5}, 0.3, 0); break;
      case 15: p.walks(0, 0); break;
      case 16: p.variances(0, 0); break;
    }
    p.config(r);
  }
  up(0.04, 0);
  up(0.04, 2);
}
// Every mounting, every motion: exact reading without noise
template <typename P>
static void mountings(mc::Run& r) {
  static const std::vector<double> ang = {0, M_PI / 2, -M_PI / 2, M_PI, 0.3, -1.1, 2.6};
  ref::Q q = ref::rpy(r.pick(ang, "roll"), r.pick(ang, "pitch"), r.pick(ang, "yaw"));
  int flip = r.deviate(7, "exact half turn");
  if (flip) q = std::vector<ref::Q>{{0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0.6, 0.8, 0}, {-1, 0, 0, 0}, {0, 0, -0.6, 0.8}}[flip - 1];
  int how = r.choose(3, "given at construction, by parameters, later");
  Pair<P> p(0, 0, 0, 0, how < 2 ? q : ref::rpy(0.2, 0.1, -0.5), 0, how == 1);
  if (how == 2) p.mount(q);
  bool biased = r.flag("bias");
  if (biased) p.bias(r, {0.1, -0.2, 0.3}, {1, 2, -3}, 0, 0);
  static const std::vector<V> x = {{1, 0, 0}, {0, -2, 0}, {0, 0, 9.81}, {0.5, 0.6, -0.7}};
  V f = r.pick(x, "force"), w = r.pick(x, "rates");
  p.update(r, 0.01, f, w);
  p.update(r, 0.5, w, f);
}
// settings written again, the same or hardly different
template <typename P>
static void again(mc::Run& r) {
  auto s = r.pick(strengths(), "strengths");
  double a[3] = {0.3, -0.8, 2.0};
  Pair<P> p(s[0], s[1], s[2], s[3], ref::rpy(a[0], a[1], a[2]), 3, r.flag("by parameters"));
  if (r.flag("set before")) { p.mount(ref::rpy(a[0], a[1], a[2])); p.variances(s[0], s[1]); p.walks(s[2], s[3]); }
  p.update(r, 0.01, motions()[0].first, motions()[0].second);
  for (auto& x : a) x = r.nearby(x, "mounting");
  p.mount(ref::rpy(a[0], a[1], a[2]));
  for (auto& x : s) if (x != 0) x = r.nearby(x, "strength");
  p.variances(s[0], s[1]); p.walks(s[2], s[3]);
  p.config(r);
  p.update(r, 0.02, motions()[1].first, motions()[1].second);
  V g{0.1, -0.2, 0.3}, f{1, 2, -3};
  p.bias(r, g, f, s[2], s[3]);
  p.update(r, 0.02, motions()[0].first, motions()[0].second);
  Reading now = read(p.m);
  for (int i = 0; i < 3; i++) { g[i] = r.nearby(now.bg[i], "gyroscope bias"); f[i] = r.nearby(now.ba[i], "accelerometer bias"); }
  p.bias(r, g, f, s[2], s[3]);
  p.update(r, 0.02, motions()[1].first, motions()[1].second);
}
// Reset and reseed: the same sequence again, whatever happened before
template <typename P>
static void replay(mc::Run& r, int depth, int len) {
  auto s = r.pick(strengths(), "strengths");
  int seed = r.choose(3, "seed") * 50;
  auto mk = [&] { return Imu<P>((P)s[0], (P)s[1], (P)s[2], (P)s[3], eq<P>(mounts()[1]), 5); };
  Imu<P> a = mk(), b = mk();
  auto feed = [](Imu<P>& i, int k) { i.update((P)(0.01 * (1 + k % 3)), e3<P>(motions()[k % 3].first), e3<P>(motions()[k % 3].second)); };
  std::vector<Reading> ra, rb;
  for (int k = 0; k < len; k++) { feed(a, k); feed(b, k); same_reading(r, read(a), read(b)); }  // same seed, same history
  for (int k = 0; k < depth; k++) {
    switch (r.choose(5)) {
      case 0: feed(a, 0); break;
      case 1: a.update((P)0, e3<P>({1, 1, 1}), e3<P>({1, 1, 1})); break;
      case 2: a.reset(); break;
      case 3: a.set_random_seed(9); break;
      case 4: a.set_bias(e3<P>({1, 2, 3}), e3<P>({4, 5, 6}), (P)s[2], (P)s[3]); break;
    }
    r.step();
  }
  a.reset(); a.set_random_seed(seed);
  b.reset(); b.set_random_seed(seed);
  Imu<P> c = b;
  c.set_random_seed(seed + 7);
  bool differs = false;
  for (int k = 0; k < len; k++) {
    feed(a, k); feed(b, k); feed(c, k);
    same_reading(r, read(a), read(b));
    if (read(a).g != read(c).g || read(a).a != read(c).a || read(a).bg != read(c).bg || read(a).ba != read(c).ba) differs = true;
    r.step();
  }
  bool noisy = s[0] + s[1] + s[2] + s[3] > 0;
  r.require(differs == noisy, "another seed must give another sequence exactly if there is noise");
  Reading x = read(a);
  r.obs(x.g); r.obs(x.a); r.obs_tag(seed); r.state();
}
// The 12 channels are standard normal, centred, uncorrelated with each other and over time
static void statistics(mc::Run& r, int n) {
  int seed = 1 + r.choose(6, "seed");
  Imu<double> m(1, 1, 1, 1, eq<double>(ref::Q{}), seed);
  double s[12] = {}, c[12][12] = {}, l[12][12] = {}, four[12] = {}, last[12] = {};
  Reading b = read(m);
  for (int k = 0; k < n; k++) {
    m.update(1, e3<double>({0, 0, 0}), e3<double>({0, 0, 0}));
    Reading x = read(m);
    double z[12];
    for (int i = 0; i < 3; i++) { z[i] = x.bg[i] - b.bg[i]; z[3 + i] = x.ba[i] - b.ba[i]; z[6 + i] = x.g[i] - x.bg[i]; z[9 + i] = x.a[i] - x.ba[i]; }
    for (int i = 0; i < 12; i++) {
      s[i] += z[i]; four[i] += z[i] * z[i] * z[i] * z[i];
      for (int j = 0; j < 12; j++) { c[i][j] += z[i] * z[j]; l[i][j] += z[i] * last[j]; }
    }
    for (int i = 0; i < 12; i++) last[i] = z[i];
    b = x;
    r.step();
  }
  const double e = 7 / std::sqrt((double)n);
  for (int i = 0; i < 12; i++) {
    r.near(s[i] / n, 0, "mean of the noise", e);
    r.near(four[i] / n, 3, "kurtosis of the noise", e, 9);
    for (int j = 0; j < 12; j++) {
      r.near(c[i][j] / n, i == j, "covariance of the noise", e, i == j ? 0.4 : 1);
      r.near(l[i][j] / n, 0, "correlation with the previous noise", e);
    }
  }
  r.obs(s[0]); r.state();
}
// every number of every sign and size, some of them unusual
template <typename P>
static void unusual(mc::Run& r) {
  static const std::vector<double> vs = {0.04, 0, 1e-10, 1e-5, 1, 90, 1e4}, ts = {0.01, 1e-7, 1e-4, 0.09, 0.11, 0.7, 3, 200};
  auto var = [&](const char* l) { return vs[r.deviate((int)vs.size(), l)]; };
  double q0 = var("gyroscope variance"), q1 = var("accelerometer variance"), q2 = var("gyroscope walk"), q3 = var("accelerometer walk");
  Pair<P> p(q0, q1, q2, q3, ref::rpy(r.wide(0.3, 7, "roll"), r.wide(-0.2, 7, "pitch"), r.wide(1.1, 7, "yaw")), 1 + r.deviate(4, "seed"), r.flag("by parameters"));
  p.config(r);
  if (r.deviate(2, "set bias")) {
    V g{r.wide(0.1, 1e3), r.wide(-0.2, 1e3), r.wide(0.3, 1e3)}, a{r.wide(1, 1e3), r.wide(2, 1e3), r.wide(-3, 1e3)};
    p.bias(r, g, a, p.wg, p.wa);
  }
  for (int k = 0; k < 3; k++) {
    int o = r.deviate(4);
    if (o == 1) p.reset(r);
    if (o == 2) p.mount(ref::rpy(-0.4, 0.9, r.wide(2, 7)));
    if (o == 3) p.nothing(r, r.flag("negative") ? -1e-9 : 0);
    V f, w;
    for (int i = 0; i < 3; i++) { f[i] = r.wide(2.5 * i - 1, 1e4, "force"); w[i] = r.wide(0.7 - 0.5 * i, 1e4, "rate"); }
    p.update(r, ts[r.deviate((int)ts.size(), "step")], f, w);
  }
}
template <typename P>
static void endurance(mc::Run& r, int len) {
  auto s = r.pick(strengths(), "strengths");
  Pair<P> p(s[0], s[1], s[2], s[3], mounts()[1], 3, r.flag("by parameters"));
  int pat = r.choose(3, "pattern");
  for (int k = 0; k < len; k++) {
    if (pat == 1 && k % 500 == 499) p.reset(r);
    if (pat == 2 && k % 300 == 299) p.mount(ref::rpy(0.01 * k, 0.3, -0.002 * k));
    p.update(r, k % 2 && pat ? 0.004 : 0.01, {3 * std::sin(0.1 * k), 9.8, 0.002 * k}, {std::cos(0.02 * k), 0.1, std::sin(0.3 * k)});
    p.config(r);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "6 strength sets x 5 mountings x 2 seeds x both constructors x all sequences of 13 calls, length ";
    ex.explore("calls", b + (t ? "4" : "3"), 0, [t](mc::Run& r) { calls<double>(r, t ? 4 : 3); });
    ex.explore("calls_f", b + (t ? "3" : "2") + ", single precision", 0, [t](mc::Run& r) { calls<float>(r, t ? 3 : 2); });
    ex.explore("mountings", "349 mountings x 3 ways of giving them x 16 motions x bias", 1, mountings<double>);
    ex.explore("mountings_f", "the same in single precision", 1, mountings<float>);
    ex.explore("again", "all settings written again, any " + std::string(t ? "2" : "1") + " numbers hardly different", t ? 2 : 1, again<double>);
    ex.explore("again_f", "the same in single precision", 1, again<float>);
    ex.explore("replay", "strengths x seeds x all histories of 5 calls before the reset", 0, [t](mc::Run& r) { replay<double>(r, t ? 7 : 5, 7); });
    ex.explore("replay_f", "the same in single precision", 0, [](mc::Run& r) { replay<float>(r, 4, 7); });
    int bu = t ? 3 : 2, el = t ? 200000 : 20000;
    ex.explore("unusual", "any " + std::to_string(bu) + " numbers of unusual sign or size", bu, unusual<double>);
    ex.explore("unusual_f", "the same in single precision", 1, unusual<float>);
    ex.explore("endurance", std::to_string(el) + " updates", 0, [el](mc::Run& r) { endurance<double>(r, el); });
    ex.explore("statistics", "6 seeds, long sequences", 0, [t](mc::Run& r) { statistics(r, t ? 1000000 : 60000); });
  });
}
