// C10: invalid vehicle parameters are rejected as a whole; valid ones replace everything.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <int N> using Model = multirotor::model::Model<double, N>;
template <int N> using Params = multirotor::model::ModelParams<double, N>;

// Every number of a parameter set
template <int N>
static std::vector<double> settings(const Params<N>& p) {
  std::vector<double> o;
  auto put = [&](const auto& e) { for (int j = 0; j < e.cols(); j++) for (int i = 0; i < e.rows(); i++) o.push_back(e(i, j)); };
  o.push_back(p.vehicle_mass); put(p.vehicle_inertia); o.push_back(p.vehicle_drag_coefficient);
  put(p.vehicle_aero_moment_coefficient); put(p.gravity);
  o.push_back(p.force_process_noise_auto_correlation); o.push_back(p.moment_process_noise_auto_correlation);
  for (auto& q : p.motors_params) {
    o.push_back(q.motor_rotation_direction); o.push_back(q.thrust_coefficient); o.push_back(q.torque_coefficient);
    o.push_back(q.min_speed); o.push_back(q.max_speed); o.push_back(q.time_constant); o.push_back(q.rotational_inertia);
    put(q.pose.matrix());
  }
  return o;
}
// Everything a model reports and computes, without its random sequence
template <int N>
static std::vector<double> view(Model<N>& m) {
  std::vector<double> o;
  auto put = [&](const auto& e) { for (int j = 0; j < e.cols(); j++) for (int i = 0; i < e.rows(); i++) o.push_back(e(i, j)); };
  auto params = [&](const Params<N>& p) {
    o.push_back(p.vehicle_mass); put(p.vehicle_inertia); o.push_back(p.vehicle_drag_coefficient);
    put(p.vehicle_aero_moment_coefficient); put(p.gravity);
    o.push_back(p.force_process_noise_auto_correlation); o.push_back(p.moment_process_noise_auto_correlation);
  };
  params(m.get_params());
  for (auto* v : {&m.get_motors(), &m.get_params().motors_params})
    for (auto& q : *v) {
      o.push_back(q.motor_rotation_direction); o.push_back(q.thrust_coefficient); o.push_back(q.torque_coefficient);
      o.push_back(q.min_speed); o.push_back(q.max_speed); o.push_back(q.time_constant); o.push_back(q.rotational_inertia);
      put(q.pose.matrix());
    }
  o.push_back(m.get_num_rotors()); o.push_back(m.get_mass()); put(m.get_vehicle_inertia());
  o.push_back(m.get_vehicle_drag_coefficient()); put(m.get_vehicle_aero_moment_coefficient()); put(m.get_gravity());
  o.push_back(m.get_force_process_noise_auto_correlation()); o.push_back(m.get_moment_process_noise_auto_correlation());
  put(m.get_mixer_force_vector()); put(m.get_mixer_force_matrix()); put(m.get_mixer_torque_matrix());
  put(m.get_mixer_inertia_matrix()); put(m.get_mixer_matrix());
  EN<double, N> w = pattern<double, N>(700, -230), a = pattern<double, N>(-4000, 2100);
  put(m.get_aerodynamic_moment(e3({1.5, -2, 0.4}))); put(m.get_drag_force(e3({-3, 2, 0.5})));
  o.push_back(m.get_force_thrust_by_motors(w)); put(m.get_force_vector_thrust_by_motors(w)); put(m.get_torque_by_motors(w, a));
  return o;
}
template <int N>
static std::vector<double> noise(Model<N> m, int draws) {  // on a copy
  std::vector<double> o;
  auto put = [&](const auto& e) { for (int i = 0; i < 3; i++) o.push_back(e[i]); };
  put(m.get_stochastic_force()); put(m.get_stochastic_moment());
  for (int i = 0; i < draws; i++) { m.set_stochastic_noise(0.01); put(m.get_stochastic_force()); put(m.get_stochastic_moment()); }
  return o;
}
template <int N>
static Params<N> good(int k) {
  ref::Vehicle b = N == 6 ? hexa() : vehicle(k % 4);
  if (N == 6) { b.mass += 0.7 * k; b.drag += 0.1 * k; for (auto& q : b.rotors) q.kf *= 1 + 0.2 * k, q.pos[0] += 0.01 * k; }
  auto p = model_params<double, N>(b);
  p.force_process_noise_auto_correlation = 0.3 + 0.2 * k;
  p.moment_process_noise_auto_correlation = 0.05 * (k + 1);
  if (k == 4) {  // the borders of validity
    p.vehicle_mass = 0; p.vehicle_drag_coefficient = 0; p.vehicle_inertia.setZero(); p.vehicle_aero_moment_coefficient.setZero();
    p.motors_params[1].min_speed = p.motors_params[1].max_speed = -50;
    p.motors_params[N - 1].thrust_coefficient = 0; p.motors_params[0].torque_coefficient = 0;
    p.motors_params[2].time_constant = 0; p.motors_params[N - 2].rotational_inertia = 0;
  }
  if (k == 5) {  // unusual but valid
    p.vehicle_inertia = em({V{0, 1, 0}, V{0, 0, 1}, V{1, 0, 0}});
    p.vehicle_aero_moment_coefficient = em({V{-1, 0, 0}, V{0, -2, 0}, V{0, 0, 3}});
    p.gravity = e3({3, 1, 20});
    p.motors_params[0].min_speed = -5000; p.motors_params[0].max_speed = -4000;
    p.vehicle_mass = 1e4;
  }
  return p;
}
static const int NFAULT(int n) { return 4 + 5 * n; }
static const std::vector<double>& sizes() { static const std::vector<double> s = {1e-12, 1e-3, 1, 1e6}; return s; }
template <int N>
static void spoil(Params<N>& p, int f, double z) {
  switch (f) {
    case 0: p.vehicle_mass = -z; return;
    case 1: p.vehicle_drag_coefficient = -z; return;
    case 2: p.vehicle_inertia = em(diag(-z, 1, 1)); return;
    case 3: p.vehicle_aero_moment_coefficient = em({V{0, z, 0}, V{1, 0, 0}, V{0, 0, 1}}); return;
  }
  auto& m = p.motors_params[(f - 4) / 5];
  switch ((f - 4) % 5) {
    case 0: m.thrust_coefficient = -z; break;
    case 1: m.torque_coefficient = -z; break;
    case 2: m.rotational_inertia = -z; break;
    case 3: m.time_constant = -z; break;
    case 4: m.max_speed = 500; m.min_speed = 500 + z; break;
  }
}
static std::string fname(int f) {
  static const char* n[] = {"mass", "drag", "inertia", "aero"};
  static const char* m[] = {"kf", "kt", "J", "tau", "max<min"};
  return f < 4 ? n[f] : "rotor " + std::to_string((f - 4) / 5) + " " + m[(f - 4) % 5];
}
template <int N>
struct Twin {
  Model<N> a, b;  // a receives everything, b only the valid updates
  Params<N> last;
  Twin(int k, int seed) : a(good<N>(k), seed), b(good<N>(k), seed), last(good<N>(k)) {}
  void judge(mc::Run& r, bool was_bad) {
    r.step();
    if (!r.novel()) return;
    auto x = view<N>(a);
    auto y = view<N>(b);
    r.require(x.size() == y.size(), was_bad ? "an invalid update changed the number of rotors" : "number of rotors");
    r.same_v(x, y, (int)y.size(), was_bad ? "an invalid update changed the model, item " : "model, item ");
    Model<N> fresh(last, 0);
    auto z = view<N>(fresh);
    r.require(x.size() == z.size(), "number of rotors differs from a new model");
    r.same_v(x, z, (int)z.size(), "model differs from one built with its parameters, item ");
    auto now = settings<N>(a.get_params()), want = settings<N>(last);
    r.require(now.size() == want.size(), "number of motors");
    r.same_v(now, want, (int)want.size(), was_bad ? "an invalid update changed the parameters, item " : "valid parameters not taken over, item ");
    auto n1 = noise<N>(a, 2), n2 = noise<N>(b, 2);
    r.same_v(n1, n2, (int)n2.size(), "random sequence after the update, item ");
    r.obs(x); r.obs(n1); r.state();
  }
  void ok(mc::Run& r, int k) {
    r.say([&] { return "valid update " + std::to_string(k); });
    last = good<N>(k);
    r.require(a.check_params(last), "valid parameters refused");
    a.update_params(last);
    b.update_params(last);
    judge(r, false);
  }
  void bad(mc::Run& r, Params<N> p) {
    r.require(!a.check_params(p), "invalid parameters accepted by check_params");
    a.update_params(p);
    judge(r, true);
  }
  void draw() { a.set_stochastic_noise(0.02); b.set_stochastic_noise(0.02); }
};
template <int N>
static void faults(mc::Run& r) {  // every single fault, at every size, on top of every valid set
  Twin<N> t(r.choose(4, "start"), 7);
  if (r.flag("noise drawn")) t.draw();
  int f = r.choose(NFAULT(N), "fault");
  double z = r.pick(sizes(), "size");
  Params<N> p = good<N>(r.choose(6, "rest"));
  spoil<N>(p, f, z);
  r.say([&] { return "update with faulty " + fname(f); });
  t.bad(r, p);
  t.ok(r, 1);
}
template <int N>
static void pairs(mc::Run& r) {
  Twin<N> t(r.choose(2, "start"), 3);
  Params<N> p = good<N>(2);
  int f = r.choose(NFAULT(N)), g = r.choose(NFAULT(N));
  spoil<N>(p, f, 0.5);
  spoil<N>(p, g, 2);
  r.say([&] { return "update with faulty " + fname(f) + " and " + fname(g); });
  t.bad(r, p);
}
template <int N>
static void sequences(mc::Run& r, int depth) {
  Twin<N> t(0, 11);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(6 + 9 + 1);
    if (o < 6) { t.ok(r, o); continue; }
    if (o == 15) { t.draw(); continue; }
    Params<N> p = good<N>((k + 1) % 4);
    int f = o - 6 < 4 ? o - 6 : 4 + 5 * ((o * 3 + k) % N) + (o - 10);
    spoil<N>(p, f, 0.25);
    r.say([&] { return "update with faulty " + fname(f); });
    t.bad(r, p);
  }
}
// Through a flying simulator: rejected updates leave the flight exactly as it was
// every parameter hardly different from the one in force
template <int N>
static void again(mc::Run& r) {
  int k = r.choose(4, "parameters");
  Twin<N> t(k, 3);
  if (r.flag("after drawing")) t.draw();
  Params<N> p = good<N>(k);
  auto n = [&](auto& x, const char* w) { x = r.nearby(x, w); };
  n(p.vehicle_mass, "mass"); n(p.vehicle_drag_coefficient, "drag");
  for (int i = 0; i < 3; i++) { n(p.vehicle_inertia(i, i), "inertia"); n(p.vehicle_aero_moment_coefficient(i, i), "aerodynamic moment"); n(p.gravity[i], "gravity"); }
  n(p.force_process_noise_auto_correlation, "force noise"); n(p.moment_process_noise_auto_correlation, "moment noise");
  for (auto& m : p.motors_params) {
    if (r.deviate(2, "spin")) m.motor_rotation_direction = -m.motor_rotation_direction;
    n(m.thrust_coefficient, "thrust coefficient"); n(m.torque_coefficient, "torque coefficient"); n(m.min_speed, "lowest"); n(m.max_speed, "highest"); n(m.time_constant, "time constant");
    n(m.rotational_inertia, "rotor inertia");
    for (int i = 0; i < 3; i++) n(m.pose.translation()[i], "place");
  }
  if (p.vehicle_drag_coefficient < 0) return;
  for (auto& m : p.motors_params) if (m.rotational_inertia < 0 || m.max_speed < m.min_speed) return;
  if (p.vehicle_aero_moment_coefficient.determinant() < 0 || p.vehicle_inertia.determinant() < 0) return;
  t.last = p;
  r.require(t.a.check_params(p), "valid parameters refused");
  t.a.update_params(p); t.b.update_params(p);
  t.judge(r, false);
  t.last = good<N>(k);
  t.a.update_params(t.last); t.b.update_params(t.last);
  t.judge(r, false);
}
static void flying(mc::Run& r, int len) {
  SimSpec s = spec(standard(), standard_ctrl(standard()));
  s.start = flight(1, 4);
  s.fnoise = 0.2;
  s.model_seed = 5;
  Sim<double, 4> a(sim_params(s)), b(sim_params(s));
  for (auto* x : {&a, &b}) { x->arm(); x->set_control_mode(cmode(r.devs == 0 ? 5 : 5)); x->set_reference_position(e3({1, 2, 3})); }
  for (int k = 0; k < len; k++) {
    int d = r.deviate(1 + NFAULT(4) + 4);
    if (d > NFAULT(4)) {
      int g = d - NFAULT(4) - 1;
      a.get_dynamics().get_model().update_params(good<4>(g));
      b.get_dynamics().get_model().update_params(good<4>(g));
    } else if (d) {
      Params<4> p = good<4>(1 + d % 3);
      spoil<4>(p, d - 1, 0.1);
      a.get_dynamics().get_model().update_params(p);
    }
    for (auto* x : {&a, &b}) { x->update_controller(0.01); x->update_dynamics(0.01); x->update_imu(0.01); x->update_inertial_odometry(0.01); }
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, a, b);
    obs_all<double, 4>(r, a); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    ex.explore("faults_4", "4 models x 24 faults x 4 sizes x 6 surrounding parameter sets", 0, faults<4>);
    ex.explore("faults_6", "the same on 6 rotors, 34 faults", 0, faults<6>);
    ex.explore("pairs", "all pairs of faults", 0, pairs<4>);
    ex.explore("pairs_6", "all pairs of faults, 6 rotors", 0, pairs<6>);
    int d = ex.thorough ? 5 : 4;
    ex.explore("sequences", "all sequences of 16 updates, length " + std::to_string(d), 0, [d](mc::Run& r) { sequences<4>(r, d); });
    ex.explore("sequences_6", "all sequences of 16 updates on 6 rotors, length 3", 0, [](mc::Run& r) { sequences<6>(r, 3); });
    int n = ex.thorough ? 2 : 1;
    ex.explore("again", "any " + std::to_string(n) + " parameters hardly different from those in force", n, again<4>);
    ex.explore("again_6", "the same on 6 rotors", n, again<6>);
    int len = ex.thorough ? 40 : 20;
    ex.explore("flying", "flights of " + std::to_string(len) + " steps with updates at any point", 2, [len](mc::Run& r) { flying(r, len); });
  });
}
