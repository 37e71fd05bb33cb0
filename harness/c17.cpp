// C17: desired acceleration maps to thrust and body rates by the geometric law.
#include "sim.hpp"
using namespace qm;
using ref::M;
using ref::Q;
using ref::V;

template <typename P>
struct World {
  multirotor::controller::Controller<P, 4> c;
  acro_controller::AcroController<P> a;
  ref::Cascade k;
  double tol;
  static CtrlSpec make(int g) {
    CtrlSpec c = standard_ctrl(standard());
    switch (g) {
      case 0: break;
      case 1: c.mass = 2.7; c.kp_rot = {V{20, 0.5, -0.3}, V{0.2, 17, 0.4}, V{0.1, -0.6, 8}}; break;
      case 2: c.mass = 0.03; c.g = {0.5, -1, -3.7}; c.kp_rot = diag(1, 2, 3); break;
      case 3: c.mass = 40; c.g = {0, 0, -24.8}; c.kp_rot = diag(0, 0, 0); break;
      default: c.mass = 1; c.g = {0, 0, 0}; c.kp_rot = diag(5, -4, 6); break;
    }
    return c;
  }
  explicit World(int g) : c(ctrl_params<P, 4>(make(g))), a(ctrl_params<P, 4>(make(g)).acro_controller_params), tol(sizeof(P) == 4 ? 2e-5 : 1e-10) { set_cascade(k, make(g)); }
  void set(int g) {
    auto p = ctrl_params<P, 4>(make(g));
    c.update_acro_controller_params(p.acro_controller_params);
    a.update_params(p.acro_controller_params);
    set_cascade(k, make(g));
  }
  // sin of the angle between the force and the heading; singular when small
  void judge(mc::Run& r, const V& acc, const Q& q, double yaw) {
    M R = ref::qmat(q);
    auto o = c.convert_linear_acceleration_to_acro(e3<P>(acc), em<P>(R), (P)yaw, (P)0.01);
    r.step();
    if (!r.novel()) return;
    double T = o.first;
    V W = v3(o.second);
    V f = k.mass * (acc - k.g);
    V xc{std::cos(yaw), std::sin(yaw), 0};
    double big = k.mass * (ref::norm(acc) + ref::norm(k.g));
    double fn = ref::norm(f), sing = fn > 1e-9 * big ? ref::norm(ref::cross(ref::unit(f), xc)) : 0;
    r.say([&] { return "acceleration " + str(acc) + " attitude " + str(q) + " yaw " + mc::num(yaw) + " -> thrust " + mc::num(T) + " rates " + str(W); });
    r.finite(T, "thrust");
    for (double x : W) r.finite(x, "body rate");
    r.require(T >= 0, "negative thrust");
    V zb{R[0][2], R[1][2], R[2][2]};
    double proj = ref::dot(f, zb);
    double kn = 1;
    for (auto& row : k.kp_rot) for (double x : row) kn = std::max(kn, std::fabs(x));
    auto e = k.attitude(acc, R, yaw);
    if (proj > tol * 10 * big) {
      r.near(T, proj, "thrust", tol, big);
      if (sing > 1e-4) r.near_v(W, e.second, 3, "body rates", tol / std::min(1.0, sing * fn / big), kn);
    } else if (proj < -tol * 10 * big) {
      r.same(T, 0, "thrust against a downward force");
      r.same_v(W, V{}, 3, "body rates against a downward force");
    }
    // the same law on the component
    V th = v3(a.acceleration_to_thrust(e3<P>(acc)));
    r.near_v(th, f, 3, "force", tol, big);
    V w2 = v3(a.yaw_angle_to_angular_velocity(em<P>(R), (P)yaw, e3<P>(f)));
    for (double x : w2) r.finite(x, "body rate of the component");
    if (sing > 1e-4) r.near_v(w2, e2(acc, R, yaw), 3, "body rates of the component", tol / std::min(1.0, sing * fn / big), kn);
    r.same_v(v3(a.get_desired_angular_velocity()), w2, 3, "reported body rates");
    r.obs(T); r.obs(W); r.state();
  }
  V e2(const V& acc, const M& R, double yaw) {  // without the cut-off
    V f = k.mass * (acc - k.g), z = ref::unit(f), xc{std::cos(yaw), std::sin(yaw), 0};
    V y = ref::unit(ref::cross(z, xc)), x = ref::unit(ref::cross(y, z));
    M D{V{x[0], y[0], z[0]}, V{x[1], y[1], z[1]}, V{x[2], y[2], z[2]}};
    M E = ref::sub(ref::mul(ref::tr(D), R), ref::mul(ref::tr(R), D));
    return -1.0 * ref::mul(k.kp_rot, V{0.5 * E[2][1], 0.5 * E[0][2], 0.5 * E[1][0]});
  }
};
static const std::vector<V>& accs() {
  static const std::vector<V> a = {{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {3, 2, 1}, {-4, 6, -3}, {0, 0, 5}, {0, 0, -9.81}, {0, 0, -15}, {20, -30, 4}, {0.001, 0.002, -9.8}, {-7, -7, -7}, {300, 100, -500},
                                   {5, 0, -9.81}, {0, 5, -9.81}, {0.5, -1, -3.7}, {1e-9, 0, 0}, {0, 0, 1e4}};
  return a;
}
static const std::vector<double>& yaws() {
  static const std::vector<double> y = {0, 0.4, -0.9, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 2.5, 7.0, -100};
  return y;
}
static std::vector<Q> atts() {
  std::vector<Q> a = attitudes();
  for (double p : {M_PI / 2, -M_PI / 2}) a.push_back(ref::rpy(0, p, 0));
  a.push_back(ref::rpy(M_PI / 2, 0, 0));
  a.push_back(ref::rpy(0, M_PI, 0));
  a.push_back(ref::rpy(0.01, 0.01, 0.01));
  a.push_back(ref::rpy(0, 0, M_PI));
  for (int i = 0; i < 6; i++) a.push_back(ref::rpy(0.9 * i - 2, 0.5 * i - 1.2, 1.1 * i - 3));
  return a;
}
template <typename P>
static void lattice(mc::Run& r) {
  static const auto A = atts();
  World<P> w(r.choose(5, "vehicle"));
  V acc = r.pick(accs(), "acceleration");
  Q q = r.pick(A, "attitude");
  for (double y : yaws()) w.judge(r, acc, q, y);
}
static void fine(mc::Run& r) {  // a regular grid of attitudes and accelerations
  World<double> w(r.choose(2, "vehicle"));
  int n = r.thorough() ? 12 : 6;
  double ro = (r.choose(n) - n / 2) * 2 * M_PI / n + 0.07, p = (r.choose(n) - n / 2) * 2 * M_PI / n + 0.05, y = (r.choose(n) - n / 2) * 2 * M_PI / n - 0.03;
  double ax = (r.choose(5) - 2) * 3.3, ay = (r.choose(5) - 2) * 2.7, az = (r.choose(5) - 3) * 4.1;
  for (int k = 0; k < 4; k++) w.judge(r, {ax, ay, az}, ref::rpy(ro, p, y), 1.7 * k - 2.5);
}
// At the attitude asked for, the rates vanish
static void fixed_point(mc::Run& r) {
  World<double> w(r.choose(3, "vehicle"));
  V acc = r.pick(accs(), "acceleration");
  double yaw = r.pick(yaws(), "yaw");
  V f = w.k.mass * (acc - w.k.g);
  V z = ref::unit(f), xc{std::cos(yaw), std::sin(yaw), 0}, c = ref::cross(z, xc);
  if (ref::norm(f) < 1e-6 || ref::norm(c) < 1e-3) return;
  V y = ref::unit(c), x = ref::unit(ref::cross(y, z));
  M D{V{x[0], y[0], z[0]}, V{x[1], y[1], z[1]}, V{x[2], y[2], z[2]}};
  auto o = w.c.convert_linear_acceleration_to_acro(e3(acc), em(D), yaw, 0.01);
  r.step();
  r.near(o.first, ref::norm(f), "thrust at the desired attitude", 1e-10);
  r.near_v(v3(o.second), V{}, 3, "rates at the desired attitude", 1e-10);
  r.obs(o.first); r.state();
}
// Histories: the map has no memory, and parameter changes act at once
static void histories(mc::Run& r, int depth) {
  World<double> w(0);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(10);
    switch (o) {
      case 0: w.judge(r, {1, 2, 3}, ref::rpy(0.2, 0.3, 0.4), 0.5); break;
      case 1: w.judge(r, {-4, 2, -20}, ref::rpy(0.2, 0.3, 0.4), -0.5); break;
      case 2: w.judge(r, {-6, 1, 2}, ref::rpy(2.9, 0.1, -1), 2); break;
      case 3: w.judge(r, {0, 0, -9.81}, ref::Q{}, 0); break;
      case 4: w.judge(r, {3, 0, -4}, ref::rpy(-0.5, 0.8, 1.6), 3); break;
      case 9: w.c.compute_velocity_control(e3({1, 1, 1}), em(ref::qmat(ref::rpy(0.1, 0.2, 0.3))), e3({1, 0, 1}), e3({5, 5, 5}), 1.0, 0.01); break;
      default: w.set(o - 5); break;
    }
  }
  w.judge(r, {0.5, -1, 1}, ref::rpy(-0.2, 0.1, 0.9), 1.2);
}
// Acceleration, attitude, yaw, mass, gravity and gains of every sign and size, some of them unusual
template <typename P>
static void unusual(mc::Run& r, int base) {
  static const V A[] = {{1, 2, 3}, {-4, 0.5, 1}, {0.3, -0.2, -2}};
  World<P> w(base % 2);
  CtrlSpec c = World<P>::make(base % 2);
  c.mass = std::fabs(r.wide(c.mass, 1e4, "mass"));
  if (c.mass == 0) c.mass = 0.5;
  for (int i = 0; i < 3; i++) c.g[i] = r.wide(c.g[i], 1e3, "gravity");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.kp_rot[i][j] = r.wide(c.kp_rot[i][j], 1e4, "attitude gain");
  auto p = ctrl_params<P, 4>(c);
  w.c.update_acro_controller_params(p.acro_controller_params);
  w.a.update_params(p.acro_controller_params);
  set_cascade(w.k, c);
  V acc = A[base];
  for (auto& x : acc) x = r.wide(x, 1e4, "acceleration");
  double ro = r.wide(0.2, 100, "roll"), pi = r.wide(-0.3, 100, "pitch"), ya = r.wide(0.5, 100, "heading");
  w.judge(r, acc, ref::rpy(ro, pi, ya), r.wide(-0.8, 1e4, "yaw"));
}
static void endurance(mc::Run& r, int len) {
  World<double> w(r.choose(2, "vehicle"));
  for (int k = 0; k < len; k++)
    w.judge(r, {3 * std::sin(0.1 * k), 4 * std::cos(0.07 * k), 6 * std::sin(0.013 * k)}, ref::rpy(0.5 * std::sin(0.2 * k), 0.4 * std::cos(0.03 * k), 0.01 * k), 0.011 * k);
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("lattice", "5 vehicles x 17 accelerations x 20 attitudes x 10 yaws", 0, lattice<double>);
    ex.explore("lattice_f", "the same in single precision", 0, lattice<float>);
    ex.explore("fine", "regular grid of attitudes and accelerations", 0, fine);
    ex.explore("fixed_point", "rates vanish at the desired attitude", 0, fixed_point);
    int bu = ex.thorough ? 3 : 2;
    std::string ub = "any " + std::to_string(bu) + " numbers of unusual sign or size";
    ex.explore("unusual", ub, bu, [](mc::Run& r) { unusual<double>(r, r.choose(3)); });
    ex.explore("unusual_f", ub + ", single precision", 2, [](mc::Run& r) { unusual<float>(r, r.choose(3)); });
    int el = ex.thorough ? 1000000 : 100000;
    ex.explore("endurance", std::to_string(el) + " calls", 0, [el](mc::Run& r) { endurance(r, el); });
    int d = ex.thorough ? 6 : 5;
    ex.explore("histories", "all sequences of 10 calls, length " + std::to_string(d), 0, [d](mc::Run& r) { histories(r, d); });
  });
}
