// C18: simulations are reproducible from the seed and isolated from each other.
#include "sim.hpp"
using namespace qm;
using ref::V;
using S = Sim<double, 4>;

static SimSpec noisy(int k) {
  SimSpec s = spec(k == 1 ? crooked() : standard(1 + 0.5 * k), busy_ctrl(standard()));
  s.start = flight(1 + k, 4);
  s.fnoise = 0.4 + 0.3 * k; s.mnoise = 0.01; s.model_seed = 3 + 4 * k;
  s.gyro_var = 0.02; s.accel_var = 0.05 + 0.1 * k; s.gyro_walk = 0.01; s.accel_walk = 0.03; s.imu_seed = 8 + k;
  s.imu_q = ref::rpy(0.1 * k, 0.2, 0.3); s.odo_q = ref::rpy(0, 0.1, 0.2 * k); s.alpha = 0.6;
  return s;
}
static const int OPS = 12;
static void act(S& s, int o) {
  switch (o) {
    case 0: s.update_dynamics(0.01); break;
    case 1: s.update_controller(0.01); break;
    case 2: s.update_imu(0.01); s.update_inertial_odometry(0.01); break;
    case 3: s.arm(); s.set_control_mode(cmode(5)); s.set_reference_position(e3({1, -2, 4})); break;
    case 4: s.set_control_mode(cmode(3), ymode(1)); set_all_refs<double, 4>(s, 1); break;
    case 5: s.enable_floor_collision(3); break;
    case 6: s.update_dynamics(0.045); s.update_imu(0.02); break;
    case 7: s.disarm(); break;
    case 8: s.set_imu_params(imu_params(noisy(1))); break;
    case 9: s.get_imu().set_random_seed(5); break;
    case 10: s.set_controller_params(ctrl_params(standard_ctrl(standard()))); break;
    case 11: { auto p = model_params(heavy()); p.force_process_noise_auto_correlation = 2; s.get_dynamics().get_model().update_params(p); break; }
  }
}
static void noise_same(mc::Run& r, const S& a, const S& b) {
  r.same_v(v3(a.get_dynamics_const().get_model_const().get_stochastic_force()), v3(b.get_dynamics_const().get_model_const().get_stochastic_force()), 3, "force noise");
  r.same_v(v3(a.get_dynamics_const().get_model_const().get_stochastic_moment()), v3(b.get_dynamics_const().get_model_const().get_stochastic_moment()), 3, "moment noise");
}
static void settle(S& s) { for (int o : {1, 0, 2, 0, 2}) act(s, o); }

static void twins(mc::Run& r, int depth) {
  SimSpec sp = noisy(r.choose(3, "configuration"));
  S a(sim_params(sp)), b(sim_params(sp));
  for (int k = 0; k < depth; k++) {
    int o = r.choose(OPS);
    r.say([&] { return "call " + std::to_string(o); });
    act(a, o);
    act(b, o);
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, a, b);
    noise_same(r, a, b);
    obs_all<double, 4>(r, a); r.state();
  }
  settle(a); settle(b);
  r.step();
  same_all<double, 4>(r, a, b);
}
// Calls of two simulators interleaved in every way, against each of them alone
static void interleaved(mc::Run& r, int depth, const std::vector<int>& ops) {
  SimSpec sa = noisy(0);
  int other = r.choose(4, "other");
  SimSpec sb = noisy(other < 2 ? 1 + other : 1);
  if (other >= 2) {  // nearly the same vehicle: inertia turned (same determinant) or coupled (same diagonal)
    sb.body = sa.body;
    auto J = sa.body.inertia;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sb.body.inertia[i][j] = other == 2 ? J[(i + 1) % 3][(j + 1) % 3] : J[i][j] + (i == j ? 0 : 0.2 * std::fmin(J[i][i], J[j][j]));
  }
  if (r.flag("same seeds")) sb.model_seed = sa.model_seed, sb.imu_seed = sa.imu_seed;
  std::vector<int> pa, pb;
  S a(sim_params(sa)), b(sim_params(sb));
  for (int k = 0; k < depth; k++) {
    int o = r.choose((int)ops.size() * 2);
    bool first = o < (int)ops.size();
    o = ops[o % ops.size()];
    r.say([&] { return std::string(first ? "first" : "second") + " simulator: call " + std::to_string(o); });
    act(first ? a : b, o);
    (first ? pa : pb).push_back(o);
    r.step();
  }
  settle(a); settle(b);
  r.step();
  S x(sim_params(sa));
  for (int o : pa) act(x, o);
  settle(x);
  S y(sim_params(sb));
  for (int o : pb) act(y, o);
  settle(y);
  same_all<double, 4>(r, a, x);
  same_all<double, 4>(r, b, y);
  noise_same(r, a, x);
  noise_same(r, b, y);
  obs_all<double, 4>(r, a); obs_all<double, 4>(r, b); r.state();
}
// A copy taken at any moment continues like its original and leaves it alone
static void copies(mc::Run& r, int before, int after) {
  SimSpec sp = noisy(r.choose(2, "configuration"));
  S a(sim_params(sp));
  std::vector<int> hist;
  for (int k = 0; k < before; k++) { int o = r.choose(OPS); act(a, o); hist.push_back(o); }
  bool assign = r.flag("assigned");
  S c = assign ? S(sim_params(noisy(2))) : a;
  if (assign) { act(c, 3); act(c, 6); c = a; }
  r.step();
  same_all<double, 4>(r, c, a);
  bool first = r.flag("copy first");
  for (int k = 0; k < after; k++) {
    int o = r.choose(OPS);
    r.say([&] { return "both: call " + std::to_string(o); });
    act(first ? c : a, o);
    act(first ? a : c, o);
    hist.push_back(o);
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, c, a);
    noise_same(r, c, a);
    obs_all<double, 4>(r, a); r.state();
  }
  settle(c); act(c, 4); settle(c);  // the copy goes on alone
  S x(sim_params(sp));
  for (int o : hist) act(x, o);
  settle(x); settle(a);
  r.step();
  same_all<double, 4>(r, a, x);
  noise_same(r, a, x);
}
// The components alone
using Model = multirotor::model::Model<double, 4>;
static std::vector<double> draw(Model& m) {
  m.set_stochastic_noise(0.01);
  auto f = vn(m.get_stochastic_force()), t = vn(m.get_stochastic_moment());
  f.insert(f.end(), t.begin(), t.end());
  return f;
}
static std::vector<double> draw(imu::IMU<double>& i) {
  i.update(0.01, e3({0, 0, 0}), e3({0, 0, 0}));
  auto m = i.get_measurement();
  auto f = vn(m.first), t = vn(m.second);
  f.insert(f.end(), t.begin(), t.end());
  return f;
}
static void components(mc::Run& r, int depth) {
  auto mp = model_params(standard());
  mp.force_process_noise_auto_correlation = 0.5;
  mp.moment_process_noise_auto_correlation = 0.3;
  int s1 = 1 + r.choose(3, "seed"), s2 = 1 + r.choose(3, "other seed");
  Model ma(mp, s1), mb(mp, s2);
  imu::IMU<double> ia(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), s1), ib(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), s2);
  std::vector<std::vector<double>> got[4];
  for (int k = 0; k < depth; k++) {
    int o = r.choose(6);
    if (o == 0) got[0].push_back(draw(ma));
    if (o == 1) got[1].push_back(draw(mb));
    if (o == 2) got[2].push_back(draw(ia));
    if (o == 3) got[3].push_back(draw(ib));
    if (o == 4) { Model t(mp, 9); draw(t); t = ma; draw(t); draw(t); }
    if (o == 5) { imu::IMU<double> t(ia); draw(t); imu::IMU<double> u(0.3, 0.1, 0, 0); draw(u); }
    r.step();
  }
  Model xa(mp, s1), xb(mp, s2);
  imu::IMU<double> ya(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), s1), yb(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), s2);
  for (auto& g : got[0]) r.same_v(g, draw(xa), 6, "model noise depends on other objects");
  for (auto& g : got[1]) r.same_v(g, draw(xb), 6, "model noise depends on other objects");
  for (auto& g : got[2]) r.same_v(g, draw(ya), 6, "IMU noise depends on other objects");
  for (auto& g : got[3]) r.same_v(g, draw(yb), 6, "IMU noise depends on other objects");
  for (auto& v : got) for (auto& g : v) r.obs(g);
  r.state();
}
static void seeds(mc::Run& r, int n) {
  static const std::vector<int> far = {129, 257, 1025, 4097, 65537, 65538, 131073, 1000001, 16777217, 33554433, 268435457, 1073741825, 2147483645, 2147483646};
  int k1 = r.choose(n + (int)far.size(), "seed"), k2 = r.choose(n + (int)far.size(), "other seed");
  int a = k1 < n ? 1 + k1 : far[k1 - n], b = k2 < n ? 1 + k2 : far[k2 - n];
  auto mp = model_params(standard());
  mp.force_process_noise_auto_correlation = 0.5;
  mp.moment_process_noise_auto_correlation = 0.3;
  Model x(mp, a), y(mp, b);
  imu::IMU<double> i(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), a), j(0.1, 0.2, 0.01, 0.02, Eigen::Quaterniond::Identity(), b);
  imu::IMU<double> m(0.1, 0.2, 0.01, 0.02), o(0.1, 0.2, 0.01, 0.02);
  if (r.flag("used before")) { draw(m); draw(o); }
  m.set_random_seed(a); o.set_random_seed(b);
  SimSpec sa = noisy(0), sb = sa;
  sa.model_seed = sa.imu_seed = a;
  sb.model_seed = sb.imu_seed = b;
  S p(sim_params(sa)), q(sim_params(sb));
  for (int k = 0; k < 3; k++) {
    auto u = draw(x), v = draw(y), w = draw(i), z = draw(j), mm = draw(m), oo = draw(o);
    act(p, 0); act(q, 0); act(p, 2); act(q, 2);
    r.step();
    auto f = v3(p.get_state().dynamics.force), g = v3(q.get_state().dynamics.force), c = v3(p.get_imu_const().get_measurement_gyro()), d = v3(q.get_imu_const().get_measurement_gyro());
    if (a == b) {
      r.same_v(u, v, 6, "same seed, model noise"); r.same_v(w, z, 6, "same seed, IMU noise"); r.same_v(mm, oo, 6, "same seed set, IMU noise"); r.same_v(f, g, 3, "same seed, force"); r.same_v(c, d, 3, "same seed, gyroscope");
    } else {
      for (int n = 0; n < 6; n++) { r.require(u[n] != v[n], "different seeds give the same model noise"); r.require(w[n] != z[n], "different seeds give the same IMU noise"); r.require(mm[n] != oo[n], "different seeds set give the same IMU noise"); }
      for (int n = 0; n < 3; n++) { r.require(f[n] != g[n], "different seeds give the same simulated force"); r.require(c[n] != d[n], "different seeds give the same simulated gyroscope"); }
    }
    r.obs(u); r.state();
  }
}
static void long_twins(mc::Run& r, int len) {
  SimSpec sp = noisy(0);
  S a(sim_params(sp)), b(sim_params(sp)), other(sim_params(noisy(1)));
  for (S* s : {&a, &b}) act(*s, 3);
  act(other, 3);
  for (int k = 0; k < len; k++) {
    int d = r.deviate(OPS + 1);
    if (d) act(a, d - 1), act(other, d - 1), act(b, d - 1);
    for (int o : {1, 0, 2}) act(a, o), act(other, o), act(b, o);
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, a, b);
    obs_all<double, 4>(r, a); r.state();
  }
}
// other precisions and rotor counts, and flights far longer than the enumerated ones
template <typename P, int N>
static void endurance(mc::Run& r, int len) {
  SimSpec sp = noisy(r.choose(3, "configuration"));
  if (N == 6) { sp.body = hexa(); sp.start = flight(1, N); sp.ctrl.alloc.resize(6, std::array<double, 6>{0, 0, 1e5, 1e5, -1e5, 1e5}); }
  int pat = r.choose(3, "pattern");
  Sim<P, N> a(sim_params<P, N>(sp)), b(sim_params<P, N>(sp));
  SimSpec so = sp;
  so.model_seed = 77; so.imu_seed = 78;
  Sim<P, N> o(sim_params<P, N>(so));
  for (auto* s : {&a, &b, &o}) {
    s->arm();
    s->set_control_mode(cmode(pat == 0 ? 0 : pat == 1 ? 3 : 2));
    if (pat == 2) s->enable_floor_collision((P)1.5);
  }
  auto go = [&](Sim<P, N>& s) { s.update_controller((P)0.01); s.update_dynamics((P)0.01); s.update_imu((P)0.01); s.update_inertial_odometry((P)0.01); };
  for (int k = 0; k < len; k++) {
    go(a);
    if (k % 3 == 0) go(o);
    go(b);
    r.step();
    if (k % 50 && k > 50) continue;
    same_all<P, N>(r, a, b);
    obs_all<P, N>(r, a); r.state();
  }
  Sim<P, N> c = a;
  go(c); go(a);
  same_all<P, N>(r, a, c);
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    ex.explore("twins", "3 configurations x all sequences of 12 calls", 0, [t](mc::Run& r) { twins(r, t ? 5 : 4); });
    ex.explore("interleaved", "all interleavings of 2 simulators, all of 12 calls each, length " + std::to_string(t ? 4 : 3), 0, [t](mc::Run& r) {
      static const std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
      interleaved(r, t ? 4 : 3, all);
    });
    ex.explore("interleaved_deep", "all interleavings of 2 simulators, 4 calls each, length " + std::to_string(t ? 7 : 5), 0, [t](mc::Run& r) { interleaved(r, t ? 7 : 5, {0, 2, 1, 3}); });
    ex.explore("copies", "copy after any 2 of 12 calls, then any 2", 0, [t](mc::Run& r) { copies(r, 2, t ? 3 : 2); });
    ex.explore("components", "models and IMUs, all interleavings of 6 calls, length " + std::to_string(t ? 7 : 5), 0, [t](mc::Run& r) { components(r, t ? 7 : 5); });
    int el = t ? 30000 : 3000;
    ex.explore("endurance", "flights of " + std::to_string(el) + " steps", 0, [el](mc::Run& r) { endurance<double, 4>(r, el); });
    ex.explore("endurance_f", "the same in single precision", 0, [el](mc::Run& r) { endurance<float, 4>(r, el); });
    ex.explore("endurance_6", "the same with 6 rotors", 0, [el](mc::Run& r) { endurance<double, 6>(r, el); });
    ex.explore("seeds", "all pairs of seeds", 0, [t](mc::Run& r) { seeds(r, t ? 100 : 30); });
    ex.explore("long", "flights with 2 departures, with a third simulator in between", 2, [t](mc::Run& r) { long_twins(r, t ? 40 : 20); });
  });
}
