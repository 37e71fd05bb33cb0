// C29: replacing the parameters of one component at run time.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P, int N>
static void op(Sim<P, N>& s, int k) {
  using namespace multirotor;
  switch (k) {
    case 0: s.update_controller((P)0.01); s.update_dynamics((P)0.01); break;
    case 1: s.update_imu((P)0.01); s.update_inertial_odometry((P)0.01); break;
    case 2: s.set_control_mode(POSITION, YawControlMode::RATE); s.set_reference_position(e3<P>({1, -2, 3})); s.set_reference_yaw_rate((P)0.6); break;
    case 3: s.arm(); s.set_reference_velocity(e3<P>({1, 2, 3})); break;
    case 4: s.enable_floor_collision((P)0.4); s.update_dynamics((P)0.02); break;
    case 5: s.set_control_mode(ACRO); s.set_reference_acro((P)8, e3<P>({1, -1, 0.5})); s.update_controller((P)0.01); break;
    case 6: s.disarm(); s.update_dynamics((P)0.03); break;
    case 7: s.set_control_mode(MOTOR_W); s.set_refence_motors_angular_velocity(pattern<P, N>(900, 70)); s.update_controller((P)0.01); s.update_dynamics((P)0.005); break;
    case 8: s.set_control_mode(TRAJECTORY); set_all_refs(s, 1); s.update_controller((P)0.01); s.update_dynamics((P)0.01); s.update_imu((P)0.01); break;
  }
}
static const int NOPS = 9;
static SimSpec variant(int k) {
  ref::Vehicle b = k == 0 ? standard() : k == 1 ? crooked() : heavy();
  SimSpec s = spec(b, k == 0 ? standard_ctrl(standard()) : busy_ctrl(standard()));
  s.start = flight(k == 0 ? 1 : k == 1 ? 2 : 5, 4);
  s.fnoise = k == 2 ? 0 : 0.01 * (k + 1);
  s.mnoise = k == 2 ? 0 : 1e-4;
  s.model_seed = k * 3;
  s.gyro_var = 0.01 * k; s.accel_var = 0.04; s.gyro_walk = 0.001; s.accel_walk = 0.002 * k;
  s.imu_q = ref::rpy(0.3 * k, 0.2, -0.1 * k);
  s.imu_seed = 4 + k;
  s.alpha = k == 0 ? 1 : k == 1 ? 0.5 : 0.2;
  s.odo_q = ref::rpy(0.1 * k, -0.2 * k, 1.0 + k);
  if (k == 2) { s.ctrl.kp_rot = diag(5, 6, 7); s.ctrl.rate.kp = {3, 4, 5}; s.ctrl.mass = 2; }
  return s;
}
// set one component of a simulator through the parameter setters (how 0) or assemble it from a new component (how 1)
template <typename P, int N>
static void replace(Sim<P, N>& s, int comp, const SimSpec& v, int how) {
  switch (comp) {
    case 0: if (how == 0) s.set_dynamics_params(dyn_params<P, N>(v)); else s.get_dynamics() = multirotor::dynamics::Dynamics<P, N>(dyn_params<P, N>(v)); break;
    case 1: if (how == 0) s.set_controller_params(ctrl_params<P, N>(v.ctrl)); else s.get_controller() = multirotor::controller::Controller<P, N>(ctrl_params<P, N>(v.ctrl)); break;
    case 2: if (how == 0) s.set_imu_params(imu_params<P>(v)); else s.get_imu() = imu::IMU<P>(imu_params<P>(v)); break;
    default: if (how == 0) s.set_inertial_odometry_params(odo_params<P>(v)); else s.get_inertial_odometry() = imu::InertialOdometry<P>(odo_params<P>(v)); break;
  }
}
static SimSpec mixed(SimSpec a, const SimSpec& b, int comp) {
  switch (comp) {
    case 0: a.body = b.body; a.start = b.start; a.fnoise = b.fnoise; a.mnoise = b.mnoise; a.model_seed = b.model_seed; break;
    case 1: a.ctrl = b.ctrl; break;
    case 2: a.gyro_var = b.gyro_var; a.accel_var = b.accel_var; a.gyro_walk = b.gyro_walk; a.accel_walk = b.accel_walk; a.imu_q = b.imu_q; a.imu_seed = b.imu_seed; break;
    default: a.alpha = b.alpha; a.odo_q = b.odo_q; break;
  }
  return a;
}
template <typename P, int N>
static void fresh_component(mc::Run& r, const Sim<P, N>& s, int comp, const SimSpec& v) {
  switch (comp) {
    case 0: {
      same_state(r, get<P, N>(s.get_state()), get<P, N>(put<P, N>(v.start)));
      auto& m = s.get_dynamics_const().get_model_const();
      multirotor::model::Model<P, N> n(dyn_params<P, N>(v).model_params, v.model_seed);
      r.same(m.get_mass(), n.get_mass(), "mass"); r.same_v(v3(m.get_gravity()), v3(n.get_gravity()), 3, "gravity");
      r.same(m.get_vehicle_drag_coefficient(), n.get_vehicle_drag_coefficient(), "drag");
      r.same(m.get_force_process_noise_auto_correlation(), n.get_force_process_noise_auto_correlation(), "force noise");
      r.same(m.get_moment_process_noise_auto_correlation(), n.get_moment_process_noise_auto_correlation(), "moment noise");
      r.same_v(v3(m.get_stochastic_force()), v3(n.get_stochastic_force()), 3, "noise in force");
      r.require(m.get_vehicle_inertia() == n.get_vehicle_inertia() && m.get_mixer_matrix() == n.get_mixer_matrix() && m.get_mixer_torque_matrix() == n.get_mixer_torque_matrix(), "matrices of the model");
      break;
    }
    case 1: {
      multirotor::controller::Controller<P, N> c(ctrl_params<P, N>(v.ctrl));
      same_ctrl<P, N>(r, s.get_controller_const(), c, "new controller");
      r.require(s.get_controller_const().get_acro_controller_const().get_kp_rot() == c.get_acro_controller_const().get_kp_rot(), "attitude gains");
      break;
    }
    case 2: {
      Sensors a, b;
      imu_into(a, s.get_imu_const()); imu_into(b, imu::IMU<P>(imu_params<P>(v)));
      same_imu(r, a, b);
      break;
    }
    default: {
      Sensors a, b;
      odo_into(a, s.get_inertial_odometry_const()); odo_into(b, imu::InertialOdometry<P>(odo_params<P>(v)));
      same_odo(r, a, b);
    }
  }
}
template <typename P, int N>
static void others(mc::Run& r, const Sim<P, N>& a, const Sim<P, N>& b, int comp) {
  same_refs(r, refs<P, N>(a), refs<P, N>(b));
  if (comp != 0) same_state(r, get<P, N>(a.get_state()), get<P, N>(b.get_state()));
  if (comp != 1) same_ctrl<P, N>(r, a.get_controller_const(), b.get_controller_const());
  Sensors x = sensors<P, N>(a), y = sensors<P, N>(b);
  if (comp != 2) same_imu(r, x, y);
  if (comp != 3) same_odo(r, x, y);
}
template <typename P>
static void later(mc::Run& r, int before, int after) {
  Sim<P, 4> a(sim_params<P, 4>(variant(0)));
  int comp = r.choose(4, "component");
  SimSpec v = variant(1 + r.choose(2, "parameters"));
  for (int k = 0; k < before; k++) { op(a, r.choose(NOPS)); r.step(); }
  Sim<P, 4> b = a, old = a;
  replace(a, comp, v, 0);
  replace(b, comp, v, 1);
  r.step();
  r.say([&] { return "replaced component " + std::to_string(comp); });
  others<P, 4>(r, a, old, comp);
  fresh_component<P, 4>(r, a, comp, v);
  for (int k = 0; k < after; k++) {
    int o = r.choose(NOPS);
    op(a, o); op(b, o);
    r.step();
    if (!r.novel()) continue;
    same_all<P, 4>(r, a, b);
    obs_all(r, a); obs_sensors(r, sensors<P, 4>(a)); r.state();
  }
}
// replaced before anything happens: exactly a simulator constructed with those parameters; replaced twice: the last one counts
static void early(mc::Run& r, int after) {
  int base = r.choose(3, "first parameters"), comp = r.choose(4, "component"), second = r.choose(5, "second component");
  int vi = r.choose(3, "parameters");
  SimSpec s = variant(base), v = variant(vi);
  Sim<> a(sim_params(s));
  replace(a, comp, variant((vi + 1) % 3), 0);
  replace(a, comp, v, 0);
  SimSpec e = mixed(s, v, comp);
  if (second < 4) { replace(a, second, v, 0); e = mixed(e, v, second); }
  Sim<> b(sim_params(e));
  same_all<double, 4>(r, a, b);
  for (int k = 0; k < after; k++) {
    int o = r.choose(NOPS);
    op(a, o); op(b, o);
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, a, b);
    obs_all(r, a); obs_sensors(r, sensors(a)); r.state();
  }
}
// any moment of a flight
static void flightrun(mc::Run& r, int len) {
  Sim<> a(sim_params(variant(0)));
  a.arm();
  op(a, 2);
  if (r.flag("floor")) a.enable_floor_collision(0.2);
  bool split = false;
  Sim<> b = a;
  for (int k = 0; k < len; k++) {
    int d = r.deviate(9);
    if (d) {
      int comp = (d - 1) % 4;
      SimSpec v = variant(1 + (d - 1) / 4);
      Sim<> old = a;
      replace(a, comp, v, 0); replace(b, comp, v, 1);
      others<double, 4>(r, a, old, comp);
      fresh_component<double, 4>(r, a, comp, v);
      split = true;
    }
    op(a, 0); op(a, 1); op(b, 0); op(b, 1);
    r.step();
    if (!r.novel()) continue;
    same_all<double, 4>(r, a, b);
    obs_all(r, a); r.state();
  }
  (void)split;
}
// any parameters unusual
static void unusual(mc::Run& r) {
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  auto pos = [&](double d, double lim, const char* n) { return std::fabs(r.wide(d, lim, n)); };
  int comp = r.choose(4, "component");
  bool armed = r.flag("armed"), floor = r.flag("floor");
  SimSpec s = variant(0), w = variant(1);
  if (comp == 0) {
    w.body.mass = 1e-3 + pos(w.body.mass, 1e3, "mass"); w.body.drag = pos(w.body.drag, 1e3, "drag"); w.body.g = v(w.body.g, 1e3, "gravity");
    w.fnoise = pos(w.fnoise, 1e3, "force noise"); w.mnoise = pos(w.mnoise, 1e3, "moment noise"); w.model_seed = (int)pos(3, 1e8, "seed");
    w.start.p = v(w.start.p, 1e8, "position"); w.start.v = v(w.start.v, 1e4, "velocity"); w.start.w = v(w.start.w, 100, "rates"); w.start.a = v(w.start.a, 1e4, "acceleration");
    w.start.force = v(w.start.force, 1e4, "force"); w.start.torque = v(w.start.torque, 1e4, "torque"); w.start.dw = v(w.start.dw, 1e4, "angular acceleration");
    w.start.m[1] = pos(w.start.m[1], 1e3, "motor speed"); w.start.dm[2] = r.wide(w.start.dm[2], 1e4, "motor acceleration");
    w.start.q = ref::rpy(r.wide(0.2, 10, "roll"), 0.3, 0);
    auto& x = w.body.rotors[2];
    x.kf = 1e-9 + pos(x.kf, 1, "thrust coefficient"); x.kt = pos(x.kt, 1, "torque coefficient"); x.tau = 1e-3 + pos(x.tau, 1e3, "time constant"); x.inertia = pos(x.inertia, 1, "rotor inertia"); x.pos = v(x.pos, 1e3, "rotor position");
    x.lo = 0; x.hi = 1 + pos(x.hi, 3e5, "highest speed");
  } else if (comp == 1) {
    w.ctrl.mass = pos(w.ctrl.mass, 1e3, "mass"); w.ctrl.g = v(w.ctrl.g, 1e3, "gravity");
    for (auto* p : {&w.ctrl.rate, &w.ctrl.pos, &w.ctrl.vel, &w.ctrl.traj}) {
      p->kp = v(p->kp, 1e4, "kp"); p->ki = v(p->ki, 1e4, "ki"); p->kd = v(p->kd, 1e4, "kd"); p->aw[1] = pos(p->aw[1], 1e3, "anti-windup");
      p->alpha[2] = r.deviate(2) ? 1e-3 : p->alpha[2];
    }
    for (auto& row : w.ctrl.alloc) row[2] = r.wide(row[2], 1e8, "allocation");
    w.ctrl.kp_rot[1][1] = r.wide(w.ctrl.kp_rot[1][1], 1e3, "attitude gain"); w.ctrl.inertia[0][0] = r.wide(w.ctrl.inertia[0][0], 1e3, "inertia");
  } else if (comp == 2) {
    w.gyro_var = pos(w.gyro_var, 1e4, "gyroscope variance"); w.accel_var = pos(w.accel_var, 1e4, "accelerometer variance"); w.gyro_walk = pos(w.gyro_walk, 1e4, "gyroscope walk"); w.accel_walk = pos(w.accel_walk, 1e4, "accelerometer walk");
    w.imu_seed = (int)pos(3, 1e8, "seed");
    double a = r.wide(0.3, 10, "roll"), b = r.wide(0.2, 10, "pitch");
    w.imu_q = ref::rpy(a, b, r.wide(-0.1, 10, "yaw"));
  } else {
    static const double al[] = {0.5, 1, 1e-6, 0.999, 0};
    w.alpha = al[r.deviate(5)];
    double a = r.wide(0.3, 10, "roll"), b = r.wide(0.2, 10, "pitch");
    w.odo_q = ref::rpy(a, b, r.wide(-0.1, 10, "yaw"));
  }
  Sim<> a(sim_params(s));
  op(a, 2);
  if (armed) op(a, 3);
  if (floor) op(a, 4);
  op(a, 0); op(a, 1);
  Sim<> b = a, old = a;
  replace(a, comp, w, 0); replace(b, comp, w, 1);
  r.step();
  others<double, 4>(r, a, old, comp);
  fresh_component<double, 4>(r, a, comp, w);
  for (int k = 0; k < 3; k++) {
    for (int o : {0, 1}) { op(a, o); op(b, o); }
    r.step();
    same_all<double, 4>(r, a, b);
    obs_all(r, a); obs_sensors(r, sensors(a)); r.state();
  }
}
// parameters equal to those in force, hardly different, or trivial: the component is new all the same
static void alike(mc::Run& r) {
  int comp = r.choose(4, "component"), base = r.choose(3, "parameters");
  bool armed = r.flag("armed"), floor = r.flag("floor");
  SimSpec s = variant(base), w = s;
  auto n = [&](double& x, const char* l) { x = r.nearby(x, l); };
  auto p = [&](double& x, const char* l) { if (x != 0) x = r.nearby(x, l); };
  auto v = [&](V& x, const char* l) { for (int i = 0; i < 3; i++) n(x[i], l); };
  if (comp == 0) {
    p(w.body.mass, "mass"); p(w.body.drag, "drag"); v(w.body.g, "gravity"); p(w.fnoise, "force noise"); p(w.mnoise, "moment noise");
    for (auto& x : w.body.rotors) { p(x.kf, "thrust coefficient"); p(x.kt, "torque coefficient"); p(x.tau, "time constant"); p(x.inertia, "rotor inertia"); p(x.hi, "highest speed"); v(x.pos, "rotor position"); }
    v(w.start.p, "position"); v(w.start.v, "velocity"); v(w.start.w, "rates"); v(w.start.a, "acceleration"); v(w.start.force, "force"); v(w.start.torque, "torque"); v(w.start.dw, "angular acceleration");
    for (auto& x : w.start.m) p(x, "motor speed");
    for (auto& x : w.start.dm) n(x, "motor acceleration");
    if (r.deviate(2, "seed")) w.model_seed += 7;
    if (r.deviate(2, "level")) w.start.q = ref::Q{};
    if (r.deviate(2, "no noise")) w.fnoise = w.mnoise = 0;
    if (r.deviate(2, "default state")) { w.start = ref::State(); w.start.m.assign(4, 0); w.start.dm.assign(4, 0); }
  } else if (comp == 1) {
    p(w.ctrl.mass, "mass"); v(w.ctrl.g, "gravity");
    for (auto* q : {&w.ctrl.rate, &w.ctrl.pos, &w.ctrl.vel, &w.ctrl.traj}) {
      v(q->kp, "kp"); v(q->ki, "ki"); v(q->kd, "kd"); v(q->alpha, "alpha");
      for (int i = 0; i < 3; i++) { p(q->aw[i], "anti-windup"); p(q->up[i], "upper"); p(q->lo[i], "lower"); }
      if (r.deviate(2, "reset flag")) q->reset = !q->reset;
      if (r.deviate(2, "no limits")) q->up = q->lo = V{};
    }
    for (auto& row : w.ctrl.alloc) p(row[2], "allocation");
    for (int i = 0; i < 3; i++) { p(w.ctrl.kp_rot[i][i], "attitude gain"); p(w.ctrl.inertia[i][i], "inertia"); }
  } else if (comp == 2) {
    p(w.gyro_var, "gyroscope variance"); p(w.accel_var, "accelerometer variance"); p(w.gyro_walk, "gyroscope walk"); p(w.accel_walk, "accelerometer walk");
    if (r.deviate(2, "seed")) w.imu_seed += 7;
    if (r.deviate(2, "aligned")) w.imu_q = ref::Q{};
    if (r.deviate(2, "turned a little")) w.imu_q = ref::rpy(0.3 * base + 0.002, 0.2, -0.1 * base);
    if (r.deviate(2, "no noise")) w.gyro_var = w.accel_var = w.gyro_walk = w.accel_walk = 0;
  } else {
    p(w.alpha, "filter");
    if (w.alpha > 1) w.alpha = 1;
    if (r.deviate(2, "level")) w.odo_q = ref::Q{};
    if (r.deviate(2, "turned a little")) w.odo_q = ref::rpy(0.1 * base + 0.002, -0.2 * base, 1.0 + base);
    if (r.deviate(2, "as the vehicle")) w.odo_q = s.start.q;
    if (r.deviate(2, "no filter")) w.alpha = 1;
  }
  Sim<> a(sim_params(s));
  op(a, 2);
  if (armed) op(a, 3);
  if (floor) op(a, 4);
  op(a, 0); op(a, 1); op(a, 0);
  Sim<> b = a, old = a;
  replace(a, comp, w, 0); replace(b, comp, w, 1);
  r.step();
  others<double, 4>(r, a, old, comp);
  fresh_component<double, 4>(r, a, comp, w);
  for (int k = 0; k < 3; k++) {
    for (int o : {0, 1}) { op(a, o); op(b, o); }
    r.step();
    same_all<double, 4>(r, a, b);
    obs_all(r, a); obs_sensors(r, sensors(a)); r.state();
  }
}
// long before, long after, again and again
static void endurance(mc::Run& r, int len) {
  Sim<> a(sim_params(variant(0)));
  op(a, 3); op(a, r.pick(std::vector<int>{2, 5, 7, 8}, "mode"));
  int comp = r.choose(5, "component");
  Sim<> b = a;
  for (int k = 0; k < len; k++) {
    if (k % 700 == 699 || (k > 3000 && k % 3 == 0)) {
      int c = comp < 4 ? comp : k / 3 % 4;
      SimSpec v = variant(k / 700 % 3);
      Sim<> old = a;
      replace(a, c, v, 0); replace(b, c, v, 1);
      others<double, 4>(r, a, old, c);
      fresh_component<double, 4>(r, a, c, v);
    }
    for (int o : {0, 1}) { op(a, o); op(b, o); }
    r.step();
    same_all<double, 4>(r, a, b);
    obs_all(r, a); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "4 components x 2 parameter sets x all histories of 9 operations before and after";
    ex.explore("later", b, 0, [t](mc::Run& r) { later<double>(r, t ? 4 : 3, t ? 3 : 2); });
    ex.explore("later_f", b + ", single precision", 0, [](mc::Run& r) { later<float>(r, 2, 2); });
    ex.explore("unusual", "4 components x armed x floor, any 2 parameters of unusual sign or size", 2, unusual);
    ex.explore("alike", "4 components x 3 parameter sets, parameters equal to those in force or any " + std::string(t ? "2" : "1") + " hardly different or trivial", t ? 2 : 1, alike);
    ex.explore("endurance", "modes x components, replaced again and again", 0, [](mc::Run& r) { endurance(r, 5000); });
    ex.explore("early", "3 x 3 parameter sets x pairs of components x all sequences of 9 operations", 0, [t](mc::Run& r) { early(r, t ? 5 : 4); });
    ex.explore("flight", "a flight with components replaced at any moment", t ? 3 : 2, [t](mc::Run& r) { flightrun(r, t ? 40 : 30); });
  });
}
