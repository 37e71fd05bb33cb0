// C09: motor speeds map to body wrench as the rotor geometry dictates.
#include "sim.hpp"
using namespace qm;
using ref::M;
using ref::V;
template <typename P, int N> using Model = multirotor::model::Model<P, N>;

static double vmax(const std::vector<double>& v) {
  double m = 0;
  for (double x : v) m = std::max(m, std::fabs(x));
  return m;
}
// Everything the model says about its rotors, against the geometry
template <typename P, int N>
static void judge(mc::Run& r, Model<P, N>& m, const ref::Vehicle& b, const std::vector<std::vector<double>>& ws,
                  const std::vector<std::vector<double>>& as, bool stored = true) {
  const double tol = sizeof(P) == 4 ? 3e-6 : 1e-12;
  std::vector<multirotor::model::MotorParams<P>> mp;
  for (auto& q : b.rotors) mp.push_back(motor<P, N>(q));
  auto m6 = Model<P, N>::template compute_mixer_matrix<6>(mp);
  auto mi = Model<P, N>::compute_mixer_inertia_matrix(mp);
  auto m4 = Model<P, N>::template compute_mixer_matrix<4>(mp);
  r.step();
  r.require(m.get_num_rotors() == N, "number of rotors");
  for (int i = 0; i < N; i++) {
    auto& q = b.rotors[i];
    V ax = ref::mul(q.rot, V{0, 0, 1});
    V f = q.kf * ax, t = ref::cross(q.pos, f) + (q.dir * q.kt) * ax, ji = (q.dir * q.inertia) * ax;
    double sf = q.kf, st = q.kf * ref::norm(q.pos) + q.kt, sj = q.inertia;
    const bool aligned = ax[0] == 0 && ax[1] == 0 && ax[2] == 1;
    for (int k = 0; k < 3; k++) {
      r.near(m6(k, i), f[k], "mixer force", tol, sf);
      r.near(m6(3 + k, i), t[k], "mixer torque", tol, st);
      r.near(mi(k, i), ji[k], "mixer inertia", tol, sj);
      r.near(m.get_mixer_force_matrix()(k, i), f[k], "stored force matrix", tol, sf);
      r.near(m.get_mixer_torque_matrix()(k, i), t[k], "stored torque matrix", tol, st);
      r.near(m.get_mixer_inertia_matrix()(k, i), ji[k], "stored inertia matrix", tol, sj);
      r.near(m.get_mixer_matrix()(k, i), f[k], "stored mixer, force rows", tol, sf);
      r.near(m.get_mixer_matrix()(3 + k, i), t[k], "stored mixer, torque rows", tol, st);
      if (aligned) r.near(m4(1 + k, i), t[k], "4-row mixer torque", tol, st);
    }
    r.near(m.get_mixer_force_vector()[i], f[2], "stored force vector", tol, sf);
    if (aligned) r.near(m4(0, i), f[2], "4-row mixer thrust", tol, sf);
  }
  for (auto& w : ws)
    for (auto& a : as) {
      EN<P, N> ew = en<P, N>(w), ea = en<P, N>(a);
      V f = ref::thrust_body(b, w), t = ref::torque_body(b, w, a);
      double sf = 0, st = 0;
      for (int i = 0; i < N; i++) {
        double x = b.rotors[i].kf * w[i] * w[i];
        sf += x;
        st += x * ref::norm(b.rotors[i].pos) + b.rotors[i].kt * w[i] * w[i] + b.rotors[i].inertia * std::fabs(a[i]);
      }
      r.near_v(v3(m.get_force_vector_thrust_by_motors(ew)), f, 3, "force of the rotors", tol * 4, sf + 1e-300);
      r.near(m.get_force_thrust_by_motors(ew), f[2], "thrust of the rotors", tol * 4, sf + 1e-300);
      r.near_v(v3(m.get_torque_by_motors(ew, ea)), t, 3, "torque of the rotors", tol * 4, st + 1e-300);
      r.near_v(v3(Model<P, N>::get_force_vector_thrust_by_motors(m.get_mixer_force_matrix(), ew)), f, 3, "force, static form", tol * 4, sf + 1e-300);
      r.near(Model<P, N>::get_force_thrust_by_motors(m.get_mixer_force_vector(), ew), f[2], "thrust, static form", tol * 4, sf + 1e-300);
      r.near_v(v3(Model<P, N>::get_torque_by_motors(m.get_mixer_torque_matrix(), m.get_mixer_inertia_matrix(), ew, ea)), t, 3, "torque, static form", tol * 4, st + 1e-300);
      r.obs(f); r.obs(t);
    }
  r.obs_tag(N);
  r.state();
}
static std::vector<M> tilts() {
  return {diag(1, 1, 1), ref::qmat(ref::rpy(0.3, 0, 0)), ref::qmat(ref::rpy(0, -0.5, 0.9)), ref::qmat(ref::rpy(M_PI, 0, 0.2)),
          ref::qmat(ref::rpy(M_PI / 2, 0.1, 0)), ref::qmat(ref::rpy(0, 0, 1.3)), ref::qmat(ref::rpy(-1.1, 0.8, 2.2))};
}
static std::vector<V> places() {
  return {{0, 0, 0}, {0.1, 0, 0}, {0, -0.3, 0}, {0, 0, 0.2}, {-0.25, 0.15, -0.05}, {1.5, 2.5, 0.7}};
}
struct Coef { double kf, kt, J; };
static std::vector<Coef> coefs() { return {{1.91e-6, 2.6e-7, 6.62e-6}, {0, 3e-7, 0}, {5e-6, 0, 1e-5}, {1e-3, 2e-4, 0.1}, {0, 0, 0}}; }
static ref::Vehicle none(int n) {
  ref::Vehicle b = standard();
  b.rotors.assign(n, rotor(1, 1e-6, 1e-7, -4000, 4000, 0.02, 1e-6, {0.1, 0, 0}));
  return b;
}
static ref::Rotor any_rotor(mc::Run& r) {
  static const auto T = tilts();
  static const auto X = places();
  static const auto C = coefs();
  auto& c = r.pick(C, "coefficients");
  return rotor(r.flag("reversed") ? -1 : 1, c.kf, c.kt, -4000, 4000, 0.02, c.J, r.pick(X, "place"), r.pick(T, "tilt"));
}
template <typename P>
static void single(mc::Run& r) {
  ref::Vehicle b = none(1);
  b.rotors[0] = any_rotor(r);
  Model<P, 1> m(model_params<P, 1>(b));
  judge<P, 1>(r, m, b, {{0}, {1500}, {-1500}, {1e-3}, {-37}, {1e6}}, {{0}, {4e4}, {-900}});
}
static ref::Rotor menu(int i) {
  static const auto T = tilts();
  static const auto X = places();
  static const auto C = coefs();
  return rotor(i % 2 ? -1 : 1, C[(i * 2 + i / 5) % 4].kf + 1e-7 * i, C[(i + i / 3) % 4].kt + 1e-8 * i, -4000, 4000, 0.02, C[(i / 2) % 4].J, X[(i + i / 6) % 6], T[(i * 3 + i / 7) % 7]);
}
template <int N>
static void several(mc::Run& r, int kinds) {
  ref::Vehicle b = none(N);
  for (int i = 0; i < N; i++) b.rotors[i] = menu(r.choose(kinds, "rotor"));
  Model<double, N> m(model_params<double, N>(b));
  std::vector<double> w(N), w2(N), a(N);
  for (int i = 0; i < N; i++) w[i] = 900 + 210 * i, w2[i] = i % 2 ? -1300 : 700.0 + i, a[i] = 5000 - 3100 * i;
  judge<double, N>(r, m, b, {w, w2}, {a});
}
// N rotors: departures from a base vehicle in one or two rotors, all speed signs
template <typename P, int N>
static void many(mc::Run& r) {
  ref::Vehicle b = none(N);
  for (int i = 0; i < N; i++) {
    double a = 2 * M_PI * i / N;
    b.rotors[i] = rotor(i % 2 ? -1 : 1, 1e-6 + 1e-7 * i, 1e-7 + 3e-8 * i, 0, 3000, 0.02, 1e-6 * (i + 1), {0.2 * std::cos(a), 0.2 * std::sin(a), 0.01 * i});
    int d = r.deviate(17);
    if (d) b.rotors[i] = menu(d + 6);
  }
  Model<P, N> m(model_params<P, N>(b));
  int sg = r.choose(N <= 4 ? 1 << N : 8, "signs");
  std::vector<double> w(N), a(N);
  for (int i = 0; i < N; i++) w[i] = (sg >> (i % 3 + (N <= 4 && i == 3) * 3) & 1 ? -1 : 1) * (500.0 + 333 * i), a[i] = (i - 1.5) * 7000;
  judge<P, N>(r, m, b, {w}, {a});
}
// Updating the geometry of an existing model replaces every matrix
static void update(mc::Run& r, int depth) {
  ref::Vehicle b = standard();
  Model<double, 4> m(model_params(b));
  std::vector<double> w = {1000, -1100, 1200, 1300}, a = {1e4, -2e4, 3e3, 0};
  for (int k = 0; k < depth; k++) {
    int o = r.choose(6);
    b = o < 4 ? vehicle(o) : b;
    if (o >= 4) for (int i = 0; i < 4; i++) b.rotors[i] = menu(i + 5 * (o - 3) + k);
    m.update_params(model_params(b));
    judge<double, 4>(r, m, b, {w}, {a});
  }
}
// The provided layouts
template <typename P>
static void layouts(mc::Run& r) {
  static const std::vector<double> ds = {0.08, 0.5, 1e-3, 7};
  static const std::vector<double> kfs = {1.91e-6, 1e-4, 0}, kts = {2.6e-7, 3e-5};
  double x = r.pick(ds, "x"), y = r.pick(ds, "y"), kf = r.pick(kfs, "kf"), kt = r.pick(kts, "kt");
  int kind = r.choose(3, "layout");
  const double lo = 12, hi = 2345, tau = 0.031, J = 4.5e-6;
  const double tol = sizeof(P) == 4 ? 1e-6 : 1e-13;
  std::vector<V> pos;
  if (kind == 0) pos = {{x, -y, 0}, {x, y, 0}, {-x, y, 0}, {-x, -y, 0}};
  if (kind == 1) pos = {{x, 0, 0}, {0, y, 0}, {-x, 0, 0}, {0, -y, 0}};
  if (kind == 2) for (int i = 0; i < 6; i++) pos.push_back({x * std::cos(i * M_PI / 3), x * std::sin(i * M_PI / 3), 0});
  auto ms = kind == 0   ? Model<P, 4>::create_quadrotor_x_config(kf, kt, x, y, lo, hi, tau, J)
            : kind == 1 ? Model<P, 4>::create_quadrotor_plus_config(kf, kt, x, y, lo, hi, tau, J)
                        : Model<P, 6>::create_hexacopter_config(kf, kt, x, lo, hi, tau, J);
  r.step();
  int n = (int)pos.size();
  r.require((int)ms.size() == n, "number of rotors of the layout");
  ref::Vehicle b = none(n);
  for (int i = 0; i < n; i++) {
    r.near_v(v3(ms[i].pose.translation()), pos[i], 3, "rotor position", tol, std::max(x, y));
    r.near_v(v3(ms[i].pose.linear().col(2)), V{0, 0, 1}, 3, "rotor axis", tol);
    r.near_v(v3(ms[i].pose.linear().col(0)), V{1, 0, 0}, 3, "rotor frame", tol);
    r.same(ms[i].thrust_coefficient, (P)kf, "thrust coefficient"); r.same(ms[i].torque_coefficient, (P)kt, "torque coefficient");
    r.same(ms[i].min_speed, (P)lo, "minimum speed"); r.same(ms[i].max_speed, (P)hi, "maximum speed");
    r.same(ms[i].time_constant, (P)tau, "time constant"); r.same(ms[i].rotational_inertia, (P)J, "rotor inertia");
    r.require(ms[i].motor_rotation_direction == (i % 2 ? -1 : 1), "spin direction");
    b.rotors[i] = rotor(i % 2 ? -1 : 1, kf, kt, lo, hi, tau, J, pos[i]);
  }
  auto balanced = [&](auto& m, auto ew, double w) {
    V f = v3(m.get_force_vector_thrust_by_motors(ew)), t = v3(m.get_torque_by_motors(ew, ew));
    double s = n * kf * w * w, st = s * std::max(x, y) + n * kt * w * w + n * J * std::fabs(w);
    r.near_v(f, V{0, 0, s}, 3, "balanced thrust", tol * 10, s + 1e-300);
    r.near_v(t, V{}, 3, "balanced torque", tol * 10, st);
  };
  double w = 1234;
  auto mp = model_params<P, 4>(standard());
  if (n == 4) {
    mp.motors_params = ms;
    Model<P, 4> m(mp);
    balanced(m, EN<P, 4>(EN<P, 4>::Constant((P)w)), w);
    judge<P, 4>(r, m, b, {{100, 900, -500, 1300}}, {{1e4, 0, -3e4, 10}});
  } else {
    auto hp = model_params<P, 6>(hexa());
    hp.motors_params = ms;
    Model<P, 6> m(hp);
    balanced(m, EN<P, 6>(EN<P, 6>::Constant((P)w)), w);
    judge<P, 6>(r, m, b, {{100, 900, -500, 1300, 77, 2000}}, {{1e4, 0, -3e4, 10, 5, 6}});
  }
}
// coefficients, places, tilts, speeds and accelerations of every size on every rotor
template <int N>
static void unusual(mc::Run& r) {
  ref::Vehicle b = none(N);
  static const double f[] = {1, 0, 0.01, 30, 1e4};
  std::vector<double> w(N), a(N);
  for (int i = 0; i < N; i++) {
    double an = 2 * M_PI * i / N;
    auto q = rotor(i % 2 ? -1 : 1, 1e-6 + 1e-7 * i, 1e-7 + 3e-8 * i, 0, 3000, 0.02, 1e-6 * (i + 1), {0.2 * std::cos(an), 0.2 * std::sin(an), 0.01 * i});
    q.kf *= f[r.deviate(5)]; q.kt *= f[r.deviate(5)]; q.inertia *= f[r.deviate(5)];
    for (int k = 0; k < 3; k++) q.pos[k] = r.wide(q.pos[k], 1e3, "rotor position");
    double ro = r.wide(0, 10, "rotor roll"), pi = r.wide(0, 10, "rotor pitch");
    q.rot = ref::qmat(ref::rpy(ro, pi, r.wide(0, 10, "rotor yaw")));
    if (r.deviate(2)) q.dir = -q.dir;
    b.rotors[i] = q;
    w[i] = r.wide(900 + 30 * i, 3e5, "speed"); a[i] = r.wide(200 - 90 * i, 1e8, "acceleration");
  }
  Model<double, N> m(model_params<double, N>(b));
  judge<double, N>(r, m, b, {w}, {a});
}
// the same model asked and updated many times
static void endurance(mc::Run& r, int len) {
  int first = r.choose(4, "vehicle");
  Model<double, 4> m(model_params(vehicle(first)));
  for (int k = 0; k < len; k++) {
    ref::Vehicle b = vehicle((first + k / 3) % 4);
    if (k % 3 == 0) m.update_params(model_params(b));
    judge<double, 4>(r, m, b, {{100.0 + k % 11, 900, -500, 1300}}, {{1e4, 0, -3e4, 10.0 * (k % 5)}});
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("single", "one rotor: 5 coefficients x 2 spins x 6 places x 7 tilts, 6 speeds x 3 accelerations", 0, single<double>);
    ex.explore("single_f", "the same in single precision", 0, single<float>);
    int k = ex.thorough ? 60 : 20;
    ex.explore("pairs", "all pairs of rotors", 0, [](mc::Run& r) { several<2>(r, 60); });
    ex.explore("triples", "all triples of rotors", 0, [k](mc::Run& r) { several<3>(r, k); });
    ex.explore("many_4", "4 rotors, all placements of 2 unusual rotors, all 16 sign patterns", 2, many<double, 4>);
    ex.explore("many_5", "5 rotors", 2, many<double, 5>);
    ex.explore("many_6", "6 rotors", 2, many<double, 6>);
    ex.explore("many_8", "8 rotors", ex.thorough ? 2 : 1, many<double, 8>);
    ex.explore("many_f6", "6 rotors in single precision", 1, many<float, 6>);
    ex.explore("unusual_4", "4 rotors, every number unusual", ex.thorough ? 3 : 2, unusual<4>);
    ex.explore("unusual_6", "6 rotors, every number unusual", ex.thorough ? 2 : 1, unusual<6>);
    ex.explore("unusual_3", "3 rotors, every number unusual", 2, unusual<3>);
    ex.explore("endurance", "a model updated 3000 times", 0, [](mc::Run& r) { endurance(r, 9000); });
    int d = ex.thorough ? 6 : 4;
    ex.explore("update", "all sequences of parameter updates, length " + std::to_string(d), 0, [d](mc::Run& r) { update(r, d); });
    ex.explore("layouts", "provided layouts over sizes and coefficients", 0, layouts<double>);
    ex.explore("layouts_f", "the same in single precision", 0, layouts<float>);
  });
}
