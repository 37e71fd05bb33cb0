// C21: the inertial odometry against a reference integrator.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P> using Odo = imu::InertialOdometry<P>;
struct Ref {
  double alpha = 1;
  ref::Q q0, q;
  V g{}, f{}, p{}, v{}, w{}, a{};
  void reset() { g = f = p = v = w = a = V{}; q = q0; }
  void start(const ref::Q& s) { q0 = q = s; }
  void update(const V& gyro, const V& acc, double dt) {
    g = alpha * gyro + (1 - alpha) * g;
    f = alpha * acc + (1 - alpha) * f;
    w = g;
    a = ref::rot(q, f);
    q = ref::qstep(q, w, dt);
    v = v + dt * a;
    p = p + dt * v;
  }
};
static const std::vector<ref::Q>& starts() {
  static const std::vector<ref::Q> s = {ref::Q{}, ref::rpy(0.3, -0.5, 1.1), ref::rpy(M_PI, 0, 0.3), ref::rpy(-2.2, 0.6, -0.9), ref::Q{-0.5, -0.5, 0.5, 0.5}};
  return s;
}
template <typename P>
struct Pair {
  Odo<P> o;
  Ref e;
  Pair(double alpha, const ref::Q& q, bool by_params) : o(make(alpha, q, by_params)) { e.alpha = (P)alpha; e.q0 = q; e.reset(); }
  static Odo<P> make(double alpha, const ref::Q& q, bool by_params) {
    if (!by_params) return Odo<P>((P)alpha, eq<P>(q));
    imu::InertialOdometryParams<P> p;
    p.alpha = (P)alpha; p.initial_world_orientation = eq<P>(q);
    return Odo<P>(p);
  }
  void judge(mc::Run& r, double tol) {
    if (!r.novel()) return;
    Sensors s;
    odo_into(s, o);
    r.say([&] { return "p " + str(s.p) + " v " + str(s.v) + " a " + str(s.a) + " w " + str(s.w) + " q " + str(s.q); });
    r.near_v(s.w, e.w, 3, "odometry body rates", tol);
    r.near_v(s.a, e.a, 3, "odometry acceleration", tol);
    r.near_v(s.v, e.v, 3, "odometry velocity", tol);
    r.near_v(s.p, e.p, 3, "odometry position", tol);
    near_q(r, s.q, e.q, "odometry attitude", tol);
    r.near(ref::qnorm(s.q), 1, "attitude is a rotation", tol);
    r.obs(s.p); r.obs(s.v); r.obs(s.a); r.obs(s.w); r.obs(flat_q(s.q)); r.state();
  }
  void update(const V& g, const V& a, double dt) { o.update(e3<P>(g), e3<P>(a), (P)dt); e.update(g, a, (P)dt); }
  void reset(mc::Run& r) {
    o.reset(); e.reset();
    Sensors s;
    odo_into(s, o);
    r.same_v(s.p, V{}, 3, "position after reset"); r.same_v(s.v, V{}, 3, "velocity after reset");
    r.same_v(s.a, V{}, 3, "acceleration after reset"); r.same_v(s.w, V{}, 3, "rates after reset");
    r.same_v(flat_q(s.q), flat_q(q4(eq<P>(e.q0))), 4, "attitude after reset");
  }
};
static const std::vector<double>& alphas() {
  static const std::vector<double> a = {1, 0.5, 0.1, 0.93};
  return a;
}
template <typename P> static double tolerance() { return sizeof(P) == 4 ? 3e-5 : 1e-11; }
template <typename P>
static void calls(mc::Run& r, int depth) {
  Pair<P> p(r.pick(alphas(), "alpha"), r.pick(starts(), "start attitude"), r.flag("by parameters"));
  p.judge(r, tolerance<P>());
  for (int k = 0; k < depth; k++) {
    switch (r.choose(9)) {
      case 0: p.update({0.4, -0.5, 0.6}, {1, 2, 3}, 0.01); break;
      case 1: p.update({0, 0, 0}, {0, 0, -9.81}, 0.05); break;
      case 2: p.update({-2, 3, 5}, {0, 0, 0}, 0.002); break;
      case 3: p.update({12, -20, 7}, {-30, 11, 60}, 0.1); break;
      case 4: p.update({0, 0, 1.5}, {4, 0, 0}, 1); break;
      case 5: p.reset(r); break;
      case 6: p.o.set_initial_orientation(eq<P>(starts()[3])); p.e.start(starts()[3]); break;
      case 7: p.o.set_initial_orientation(eq<P>(starts()[0])); p.e.start(starts()[0]); break;
      case 8: p.update({0.7, 0, 0}, {0, -3, 0}, 0.01); break;
    }
    r.step();
    p.judge(r, tolerance<P>());
  }
}
// Long flights with switched measurements
static void longrun(mc::Run& r, int len) {
  Pair<double> p(r.pick(alphas(), "alpha"), r.pick(starts(), "start attitude"), false);
  double dt = r.pick(std::vector<double>{0.01, 0.001, 0.03}, "step");
  for (int k = 0; k < len; k++) {
    double t = k * dt;
    V g = {0.5 * std::sin(t), -0.3 + 0.1 * t, 0.8 * std::cos(2 * t)}, a = {std::cos(t), 0.5 * std::sin(3 * t), 0.2 - 0.05 * t};
    switch (r.deviate(4)) {
      case 1: p.reset(r); break;
      case 2: p.o.set_initial_orientation(eq<double>(starts()[1])); p.e.start(starts()[1]); break;
      case 3: g = {-40, 50, 30}; a = {300, -200, 100}; break;
      default: break;
    }
    p.update(g, a, dt);
    r.step();
    p.judge(r, 1e-9);
  }
}
// After a reset: exactly a new instance, for any history before it
template <typename P>
static void fresh(mc::Run& r, int depth) {
  double al = r.pick(alphas(), "alpha");
  Odo<P> o((P)al, eq<P>(starts()[1]));
  ref::Q q0 = starts()[1];
  for (int k = 0; k < depth; k++) {
    switch (r.choose(6)) {
      case 0: o.update(e3<P>({1, 2, 3}), e3<P>({4, -5, 6}), (P)0.02); break;
      case 1: o.update(e3<P>({-7, 0, 2}), e3<P>({0, 5, 9}), (P)0.5); break;
      case 2: o.reset(); break;
      case 3: q0 = starts()[2]; o.set_initial_orientation(eq<P>(q0)); break;
      case 4: q0 = starts()[4]; o.set_initial_orientation(eq<P>(q0)); break;
      case 5: { Odo<P> c = o; c.update(e3<P>({1, 1, 1}), e3<P>({1, 1, 1}), (P)0.1); break; }
    }
    r.step();
  }
  o.reset();
  Odo<P> n((P)al, eq<P>(q0));
  for (int k = 0; k < 4; k++) {
    Sensors a, b;
    odo_into(a, o); odo_into(b, n);
    same_odo(r, a, b);
    r.obs(a.p); r.obs(flat_q(a.q)); r.state();
    E3<P> g = e3<P>({0.3 * k, -0.2, 0.5}), f = e3<P>({1, -0.7 * k, 2});
    o.update(g, f, (P)0.03); n.update(g, f, (P)0.03);
    r.step();
  }
}
// every number of every sign and size, some of them unusual
template <typename P>
static void unusual(mc::Run& r) {
  static const std::vector<double> als = {0.6, 1, 0, 1e-3, 0.25, 0.999}, ts = {0.01, 1e-7, 1e-4, 0.049, 0.2, 0.6, 5};
  ref::Q q = ref::rpy(r.wide(0.3, 7, "roll"), r.wide(-0.2, 7, "pitch"), r.wide(1.1, 7, "yaw"));
  Pair<P> p(als[r.deviate((int)als.size(), "alpha")], q, r.flag("by parameters"));
  for (int k = 0; k < 4; k++) {
    int o = r.deviate(3);
    if (o == 1) p.reset(r);
    if (o == 2) { ref::Q n = ref::rpy(-0.4, 0.9, r.wide(2, 7)); p.o.set_initial_orientation(eq<P>(n)); p.e.start(n); }
    V g, a;
    for (int i = 0; i < 3; i++) { g[i] = r.wide(0.7 - 0.5 * i, 1e3, "rate"); a[i] = r.wide(2.5 * i - 1, 1e4, "acceleration"); }
    p.update(g, a, ts[r.deviate((int)ts.size(), "step")]);
    r.step();
    p.judge(r, 100 * tolerance<P>());
  }
}
static void endurance(mc::Run& r, int len) {
  Pair<double> p(r.pick(alphas(), "alpha"), r.pick(starts(), "start attitude"), false);
  int pat = r.choose(3, "pattern");
  double scale = r.flag("long steps") ? 100 : 1;  // long steps add up to days
  for (int k = 0; k < len; k++) {
    if (pat == 1 && k % 700 == 699) p.reset(r);
    if (pat == 2 && k % 900 == 899) { p.o.set_initial_orientation(eq<double>(starts()[k % 5])); p.e.start(starts()[k % 5]); }
    p.update({0.5 * std::sin(0.01 * k), -0.3 + 0.1 * std::cos(0.03 * k), 0.8 * std::cos(0.002 * k)}, {std::cos(0.01 * k), 0.5 * std::sin(0.03 * k), 0.2}, scale * (k % 2 && pat ? 0.003 : 0.01));
    r.step();
    if (k % 20 == 0) p.judge(r, 1e-7);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "4 filters x 5 start attitudes x both constructors x all sequences of 9 calls, length ";
    ex.explore("calls", b + (t ? "6" : "5"), 0, [t](mc::Run& r) { calls<double>(r, t ? 6 : 5); });
    ex.explore("calls_f", b + "4, single precision", 0, [](mc::Run& r) { calls<float>(r, 4); });
    ex.explore("long", "filters x starts x 3 steps, long runs with resets, restarts and shocks anywhere", 2, [t](mc::Run& r) { longrun(r, t ? 160 : 50); });
    int bu = t ? 3 : 2, el = t ? 400000 : 40000;
    ex.explore("unusual", "any " + std::to_string(bu) + " numbers of unusual sign or size", bu, unusual<double>);
    ex.explore("unusual_f", "any one number of unusual sign or size, single precision", 1, unusual<float>);
    ex.explore("endurance", std::to_string(el) + " updates", 0, [el](mc::Run& r) { endurance(r, el); });
    ex.explore("fresh", "4 filters x all histories of 6 calls before the reset", 0, [t](mc::Run& r) { fresh<double>(r, t ? 7 : 5); });
    ex.explore("fresh_f", "the same in single precision", 0, [](mc::Run& r) { fresh<float>(r, 4); });
  });
}
