// C25: every form of every query agrees, queries have no side effects, no query touches foreign memory (sanitizers).
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P, int N> using Dyn = multirotor::dynamics::Dynamics<P, N>;
template <typename P, int N> using Ctrl = multirotor::controller::Controller<P, N>;
template <typename A, typename B>
static void eqm(mc::Run& r, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const char* what) {
  r.require(a.rows() == b.rows() && a.cols() == b.cols(), what);
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r.same(a(i, j), b(i, j), what);
}
template <typename P>
static void eqq(mc::Run& r, const Eigen::Quaternion<P>& a, const Eigen::Quaternion<P>& b, const char* what) { eqm(r, a.coeffs(), b.coeffs(), what); }
template <typename P>
static void q_imu(mc::Run& r, const imu::IMU<P>& i, const ref::V* gyro = nullptr) {
  E3<P> g, a, g1, a1, gb, ab;
  i.get_measurement(g, a);
  auto pr = i.get_measurement();
  i.get_measurement_gyro(g1);
  i.get_measurement_accel(a1);
  eqm(r, pr.first, g, "IMU pair"); eqm(r, pr.second, a, "IMU pair");
  eqm(r, g1, g, "gyroscope"); eqm(r, a1, a, "accelerometer");
  eqm(r, i.get_measurement_gyro(), g, "gyroscope reference"); eqm(r, i.get_measurement_accel(), a, "accelerometer reference");
  const auto& ref = i.get_measurement();  // extends the life of a value; must not dangle
  eqm(r, ref.first, g, "IMU pair bound to a reference"); eqm(r, ref.second, a, "IMU pair bound to a reference");
  i.get_bias(gb, ab);
  P x, y;
  i.get_variances(x, y);
  r.require(std::isfinite((double)(x + y)), "variances");
  if (gyro) r.same_v(v3(g), *gyro, 3, "gyroscope");
}
template <typename P>
static void q_odo(mc::Run& r, const imu::InertialOdometry<P>& o) {
  E3<P> p, v, w, a;
  Eigen::Quaternion<P> q;
  o.get_measurement(p, q, v, w, a);
  eqm(r, o.get_position(), p, "odometry position"); eqq(r, o.get_orientation(), q, "odometry attitude"); eqm(r, o.get_linear_velocity(), v, "odometry velocity");
  eqm(r, o.get_angular_velocity(), w, "odometry rates"); eqm(r, o.get_linear_acceleration(), a, "odometry acceleration");
}
template <typename P, int N>
static void q_model(mc::Run& r, const multirotor::model::Model<P, N>& m, const ref::Vehicle& b) {
  auto& p = m.get_params();
  r.same(m.get_mass(), p.vehicle_mass, "mass"); r.same(m.get_mass(), (P)b.mass, "mass");
  eqm(r, m.get_vehicle_inertia(), p.vehicle_inertia, "inertia"); eqm(r, m.get_vehicle_inertia(), em<P>(b.inertia), "inertia");
  r.same(m.get_vehicle_drag_coefficient(), p.vehicle_drag_coefficient, "drag"); r.same(m.get_vehicle_drag_coefficient(), (P)b.drag, "drag");
  eqm(r, m.get_vehicle_aero_moment_coefficient(), p.vehicle_aero_moment_coefficient, "aerodynamic moment"); eqm(r, m.get_vehicle_aero_moment_coefficient(), em<P>(b.aero), "aerodynamic moment");
  eqm(r, m.get_gravity(), p.gravity, "gravity"); eqm(r, m.get_gravity(), e3<P>(b.g), "gravity");
  r.same(m.get_force_process_noise_auto_correlation(), p.force_process_noise_auto_correlation, "force noise"); r.same(m.get_moment_process_noise_auto_correlation(), p.moment_process_noise_auto_correlation, "moment noise");
  r.require(m.get_num_rotors() == N && (int)m.get_motors().size() == N && &m.get_motors()[0] == &p.motors_params[0], "rotors");
  for (int i = 0; i < N; i++) {
    auto& x = m.get_motors()[i];
    auto& e = b.rotors[i];
    r.same(x.thrust_coefficient, (P)e.kf, "thrust coefficient"); r.same(x.torque_coefficient, (P)e.kt, "torque coefficient"); r.same(x.min_speed, (P)e.lo, "lowest speed"); r.same(x.max_speed, (P)e.hi, "highest speed");
    r.same(x.time_constant, (P)e.tau, "time constant"); r.same(x.rotational_inertia, (P)e.inertia, "rotor inertia"); r.require(x.motor_rotation_direction == e.dir, "direction");
    eqm(r, x.pose.translation(), e3<P>(e.pos), "rotor position");
  }
  auto& f = m.get_mixer_force_matrix();
  auto& t = m.get_mixer_torque_matrix();
  auto& a = m.get_mixer_matrix();
  auto& fv = m.get_mixer_force_vector();
  for (int i = 0; i < N; i++) {
    r.same(f(2, i), fv[i], "vertical force of a rotor");
    for (int j = 0; j < 3; j++) { r.same(a(j, i), f(j, i), "force rows of the mixing matrix"); r.same(a(3 + j, i), t(j, i), "torque rows of the mixing matrix"); }
  }
  r.require(std::isfinite((double)(m.get_mixer_inertia_matrix().sum() + m.get_stochastic_force().sum() + m.get_stochastic_moment().sum())), "model queries");
}
template <typename P, int N>
static void q_dyn(mc::Run& r, Dyn<P, N>& d, const ref::Vehicle& b) {
  multirotor::state::State<P, N> s;
  d.get_state(s);
  same_state(r, get<P, N>(s), get<P, N>(d.get_state()));
  multirotor::model::Model<P, N> m;
  d.get_model(m);
  r.require(&d.get_model() == &d.get_model_const(), "model references");
  q_model<P, N>(r, m, b);
  q_model<P, N>(r, d.get_model_const(), b);
  eqm(r, m.get_stochastic_force(), d.get_model_const().get_stochastic_force(), "force noise in a copy");
}
template <typename P, typename C>
static void q_pid(mc::Run& r, const C& c) {
  auto p = c.get_params();
  E3<P> kp, ki, kd, up, lo;
  c.get_gains(kp, ki, kd);
  eqm(r, c.get_gains_kp(), kp, "Kp"); eqm(r, c.get_gains_ki(), ki, "Ki"); eqm(r, c.get_gains_kd(), kd, "Kd");
  eqm(r, p.Kp_gains, kp, "Kp in the parameters"); eqm(r, p.Ki_gains, ki, "Ki in the parameters"); eqm(r, p.Kd_gains, kd, "Kd in the parameters");
  eqm(r, p.antiwindup_cte, c.get_anti_windup(), "anti-windup"); eqm(r, p.alpha, c.get_alpha(), "alpha");
  r.require(p.reset_integral_flag == c.get_reset_integral_saturation_flag() && p.proportional_saturation_flag == c.get_proportional_saturation_flag(), "flags");
  c.get_saturation_limits(up, lo);
  eqm(r, p.upper_output_saturation, up, "upper limit"); eqm(r, p.lower_output_saturation, lo, "lower limit");
  r.require(c.get_output_saturation_flag() == (!up.isZero(0) || !lo.isZero(0)), "saturation flag");
}
template <typename P, int N>
static void q_ctrl(mc::Run& r, Ctrl<P, N>& c) {
  r.require(&c.get_acro_controller() == &c.get_acro_controller_const() && &c.get_indi_controller() == &c.get_indi_controller_const() && &c.get_position_controller() == &c.get_position_controller_const() &&
                &c.get_velocity_controller() == &c.get_velocity_controller_const() && &c.get_trajectory_controller() == &c.get_trajectory_controller_const(), "controller references");
  const auto& i = c.get_indi_controller_const();
  const auto& p = c.get_position_controller_const();
  const auto& v = c.get_velocity_controller_const();
  const auto& t = c.get_trajectory_controller_const();
  q_pid<P>(r, i); q_pid<P>(r, p); q_pid<P>(r, v); q_pid<P>(r, t);
  eqm(r, i.get_desired_angular_acceleration(), i.get_output(), "angular acceleration"); eqm(r, i.get_angular_velocity_error(), i.get_proportional_error(), "rate error");
  eqm(r, p.get_desired_linear_velocity(), p.get_output(), "desired velocity"); eqm(r, p.get_position_error(), p.get_proportional_error(), "position error");
  eqm(r, v.get_desired_linear_acceleration(), v.get_output(), "desired acceleration"); eqm(r, v.get_velocity_error(), v.get_proportional_error(), "velocity error");
  eqm(r, t.get_desired_linear_acceleration(), t.get_output(), "desired trajectory acceleration"); eqm(r, t.get_position_error(), t.get_proportional_error(), "trajectory position error");
  eqm(r, t.get_velocity_error(), t.get_derivative_error(), "trajectory velocity error");
  r.same(c.get_acro_controller_const().get_vehicle_mass(), c.get_acro_controller().get_vehicle_mass(), "mass");
  r.require(std::isfinite((double)(c.get_acro_controller_const().get_kp_rot().sum() + c.get_acro_controller_const().get_gravity().sum() + i.get_inertia().sum() + i.get_mixer_matrix_inverse().sum() + i.get_desired_torque().sum())), "controller queries");
  eqm(r, i.get_motor_angular_velocity(), c.get_desired_motor_angular_velocity(), "motor speeds of the rate stage");
  r.same(i.get_desired_thrust()[2], c.get_desired_thrust(), "thrust of the rate stage");
}
template <typename P, int N>
static void q_sim(mc::Run& r, Sim<P, N>& s, const ref::Vehicle& b) {
  const Sim<P, N>& c = s;
  multirotor::state::State<P, N> st;
  s.get_state(st);
  ref::State x = get<P, N>(st);
  same_state(r, x, get<P, N>(s.get_state()));
  same_state(r, x, get<P, N>(s.get_dynamics().get_state()));
  same_state(r, x, get<P, N>(s.get_dynamics_const().get_state()));
  Dyn<P, N> d;
  s.get_dynamics(d);
  same_state(r, x, get<P, N>(d.get_state()));
  r.require(&s.get_dynamics() == &s.get_dynamics_const() && &s.get_controller() == &s.get_controller_const() && &s.get_imu() == &s.get_imu_const() && &s.get_inertial_odometry() == &s.get_inertial_odometry_const(), "component references");
  q_dyn<P, N>(r, s.get_dynamics(), b);
  q_dyn<P, N>(r, d, b);
  // IMU
  imu::IMU<P> i;
  s.get_imu(i);
  E3<P> g, a;
  s.get_imu_measurement(g, a);
  eqm(r, g, s.get_imu().get_measurement_gyro(), "gyroscope"); eqm(r, a, s.get_imu_const().get_measurement_accel(), "accelerometer"); eqm(r, i.get_measurement_gyro(), g, "gyroscope of a copy"); eqm(r, i.get_measurement_accel(), a, "accelerometer of a copy");
  E3<P> b1, b2, b3, b4;
  i.get_bias(b1, b2); s.get_imu().get_bias(b3, b4);
  eqm(r, b1, b3, "gyroscope bias"); eqm(r, b2, b4, "accelerometer bias");
  q_imu(r, s.get_imu_const());
  q_imu(r, i);
  // odometry
  imu::InertialOdometry<P> o;
  s.get_inertial_odometry(o);
  multirotor::state::internal::Kinematics<P> k1, k2 = s.get_odometry();
  s.get_odometry(k1);
  const auto& k3 = s.get_odometry();
  for (const multirotor::state::internal::Kinematics<P>* k : std::initializer_list<const multirotor::state::internal::Kinematics<P>*>{&k1, &k2, &k3}) {
    eqm(r, k->position, o.get_position(), "odometry position"); eqq(r, k->orientation, o.get_orientation(), "odometry attitude"); eqm(r, k->linear_velocity, o.get_linear_velocity(), "odometry velocity");
    eqm(r, k->angular_velocity, o.get_angular_velocity(), "odometry rates"); eqm(r, k->linear_acceleration, o.get_linear_acceleration(), "odometry acceleration");
    eqm(r, k->position, s.get_inertial_odometry_const().get_position(), "odometry position");
  }
  q_odo(r, s.get_inertial_odometry_const());
  q_odo(r, o);
  // controller
  Ctrl<P, N> cc;
  s.get_controller(cc);
  same_ctrl<P, N>(r, cc, s.get_controller_const());
  q_ctrl<P, N>(r, s.get_controller());
  q_ctrl<P, N>(r, cc);
  // what an output argument received goes on like the component itself (judged on a copy of it)
  {
    Ctrl<P, N> own = s.get_controller_const();
    E3<P> t(P(0.3), P(-0.2), P(0.4)), u(P(0.1), P(0.5), P(-0.6));
    Eigen::Matrix<P, 3, 3> turn = Eigen::Matrix<P, 3, 3>::Identity();
    eqm(r, cc.compute_position_control(t, turn, u, t, u, P(0.2), P(0.01)), own.compute_position_control(t, turn, u, t, u, P(0.2), P(0.01)), "position control of a controller queried");
    eqm(r, cc.compute_trajectory_control(t, u, turn, t, u, t, u, P(0.2), P(0.01)), own.compute_trajectory_control(t, u, turn, t, u, t, u, P(0.2), P(0.01)), "trajectory control of a controller queried");
    Dyn<P, N> od = s.get_dynamics_const();
    od.process_euler_explicit(EN<P, N>::Constant(500), P(0.01)); d.process_euler_explicit(EN<P, N>::Constant(500), P(0.01));
    same_state(r, get<P, N>(d.get_state()), get<P, N>(od.get_state()));
    imu::IMU<P> oi = s.get_imu_const();
    oi.update(P(0.01), t, u); i.update(P(0.01), t, u);
    eqm(r, i.get_measurement_gyro(), oi.get_measurement_gyro(), "next reading of an IMU queried"); eqm(r, i.get_measurement_accel(), oi.get_measurement_accel(), "next reading of an IMU queried");
    imu::InertialOdometry<P> oo = s.get_inertial_odometry_const();
    oo.update(u, t, P(0.01)); o.update(u, t, P(0.01));
    eqm(r, o.get_position(), oo.get_position(), "next estimate of an odometry queried"); eqq(r, o.get_orientation(), oo.get_orientation(), "next estimate of an odometry queried");
    oo.reset(); o.reset();
    eqq(r, o.get_orientation(), oo.get_orientation(), "start attitude of an odometry queried");
  }
  // references
  bool f;
  P v;
  EN<P, N> n;
  E3<P> e;
  s.get_armed(f); r.require(f == c.get_armed(), "arming");
  s.get_floor_collision_enabled(f); r.require(f == c.get_floor_collision_enabled(), "floor");
  s.get_floor_height(v); r.same(v, c.get_floor_height(), "floor height");
  s.get_reference_motors_angular_velocity(n); eqm(r, n, c.get_reference_motors_angular_velocity(), "motor reference");
  s.get_reference_thrust(v); r.same(v, c.get_reference_thrust(), "thrust reference");
  s.get_reference_angular_velocity(e); eqm(r, e, c.get_reference_angular_velocity(), "rate reference");
  s.get_reference_position(e); eqm(r, e, c.get_reference_position(), "position reference");
  s.get_reference_velocity(e); eqm(r, e, c.get_reference_velocity(), "velocity reference");
  s.get_reference_acceleration(e); eqm(r, e, c.get_reference_acceleration(), "acceleration reference");
  s.get_reference_yaw(v); r.same(v, c.get_reference_yaw(), "yaw reference");
  s.get_reference_yaw_rate(v); r.same(v, c.get_reference_yaw_rate(), "yaw rate reference");
  s.get_actuation_motors_angular_velocity(n); eqm(r, n, c.get_actuation_motors_angular_velocity(), "motor command");
  s.get_external_force(e); eqm(r, e, c.get_external_force(), "external force");
  multirotor::ControlMode m;
  multirotor::YawControlMode y;
  s.get_control_mode(m); r.require(m == c.get_control_mode(), "mode");
  s.get_yaw_control_mode(y); r.require(y == c.get_yaw_control_mode(), "yaw mode");
}
// what was set is what is reported
struct Want { bool armed = false, floor = false; double height = 0; int mode = 1, ymode = 0; };
template <typename P, int N>
static void op(Sim<P, N>& s, int k) {
  using namespace multirotor;
  switch (k) {
    case 0: s.update_controller((P)0.01); s.update_dynamics((P)0.01); break;
    case 1: s.update_imu((P)0.01); s.update_inertial_odometry((P)0.01); break;
    case 2: s.set_control_mode(POSITION, YawControlMode::RATE); s.set_reference_position(e3<P>({1, -2, 3})); s.set_reference_yaw_rate((P)0.6); break;
    case 3: s.arm(); break;
    case 4: s.enable_floor_collision((P)0.4); s.update_dynamics((P)0.02); break;
    case 5: s.set_control_mode(ACRO); s.set_reference_acro((P)8, e3<P>({1, -1, 0.5})); s.update_controller((P)0.01); break;
    case 6: s.disarm(); s.disable_floor_collision(); break;
    case 7: s.set_control_mode(TRAJECTORY); set_all_refs(s, 1); s.update_controller((P)0.01); s.update_dynamics((P)0.01); break;
    case 8: s.get_imu().reset(); s.get_inertial_odometry().reset(); break;
  }
}
template <typename P, int N>
static void history(mc::Run& r, int depth) {
  SimSpec sp = spec(N == 6 ? hexa() : crooked(), busy_ctrl(standard()));
  if (N == 6) { sp.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); sp.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); }
  sp.start = flight(r.choose(3, "start"), N);
  sp.fnoise = 0.01; sp.gyro_var = 0.01; sp.accel_var = 0.02; sp.gyro_walk = 0.001; sp.accel_walk = 0.002; sp.alpha = 0.6;
  Sim<P, N> a(sim_params<P, N>(sp)), b(sim_params<P, N>(sp));
  q_sim<P, N>(r, a, sp.body);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(9);
    op(a, o); op(b, o);
    r.step();
    if (k == depth - 1 || r.novel()) {
      q_sim<P, N>(r, a, sp.body);
      obs_all(r, a); obs_sensors(r, sensors<P, N>(a)); r.state();
    }
  }
  for (int k = 0; k < 2; k++) { op(a, 0); op(a, 1); op(b, 0); op(b, 1); q_sim<P, N>(r, a, sp.body); }
  same_all<P, N>(r, a, b);
}
// What is set in a component is what it reports, by reference and by pointer
template <typename P, int N>
static void setters(mc::Run& r, int depth) {
  ref::Vehicle veh = N == 6 ? hexa() : standard();
  SimSpec sp = spec(veh, CtrlSpec());
  sp.start.m.assign(N, 0); sp.start.dm.assign(N, 0);
  Dyn<P, N> d(dyn_params<P, N>(sp));
  ref::State want = get<P, N>(put<P, N>(sp.start));
  for (int k = 0; k < depth; k++) {
    switch (r.choose(8)) {
      case 0: { auto s = put<P, N>(flight(1, N)); d.set_state(s); want = get<P, N>(s); break; }
      case 1: { auto s = put<P, N>(flight(2, N)); d.set_state(&s); want = get<P, N>(s); s.kinematics.position.setConstant(99); break; }
      case 2: { veh = N == 6 ? hexa() : crooked(); veh.mass = 3; multirotor::model::Model<P, N> m(model_params<P, N>(veh)); d.set_model(m); break; }
      case 3: { veh = N == 6 ? hexa() : heavy(); veh.drag = 0.9; multirotor::model::Model<P, N> m(model_params<P, N>(veh)); d.set_model(&m); break; }
      case 4: {
        auto before = d.get_state();
        bool thrown = false;
        try { d.set_state((const multirotor::state::State<P, N>*)nullptr); } catch (const std::exception&) { thrown = true; }
        (void)thrown;
        same_state(r, get<P, N>(d.get_state()), get<P, N>(before));
        break;
      }
      case 5: {
        try { d.set_model((const multirotor::model::Model<P, N>*)nullptr); } catch (const std::exception&) {}
        break;
      }
      case 6: { d.process_euler_explicit(pattern<P, N>(900, 20), (P)0.01); want = get<P, N>(d.get_state()); break; }
      case 7: { Dyn<P, N> c = d; c.process_euler_explicit(pattern<P, N>(500, 20), (P)0.01); break; }
    }
    r.step();
    same_state(r, get<P, N>(d.get_state()), want);
    q_dyn<P, N>(r, d, veh);
    obs_state(r, want); r.obs(veh.mass); r.state();
  }
}
// Components alone
template <typename P>
static void sensor_units(mc::Run& r, int depth) {
  imu::IMU<P> a((P)0.1, (P)0.2, (P)0.01, (P)0.02, eq<P>(ref::rpy(0.1, 0.2, 0.3)), 3), b = a;
  imu::InertialOdometry<P> o((P)0.5, eq<P>(ref::rpy(0.3, 0.2, 0.1))), p = o;
  for (int k = 0; k < depth; k++) {
    int c = r.choose(7);
    auto act = [&](imu::IMU<P>& i, imu::InertialOdometry<P>& u) {
      switch (c) {
        case 0: i.update((P)0.01, e3<P>({1, 2, 3}), e3<P>({4, 5, 6})); break;
        case 1: i.reset(); break;
        case 2: i.set_bias(e3<P>({1, 2, 3}), e3<P>({-1, -2, -3}), 0, 0); break;
        case 3: i.set_orientation(eq<P>(ref::rpy(1, 1, 1))); break;
        case 4: u.update(e3<P>({1, 2, 3}), e3<P>({4, 5, 6}), (P)0.01); break;
        case 5: u.reset(); break;
        case 6: u.set_initial_orientation(eq<P>(ref::rpy(1, 1, 1))); break;
      }
    };
    act(a, o);
    q_imu(r, a); q_odo(r, o); q_imu(r, a); q_odo(r, o);
    act(b, p);
    Sensors x, y;
    imu_into(x, a); odo_into(x, o); imu_into(y, b); odo_into(y, p);
    r.step();
    same_sensors(r, x, y);
    obs_sensors(r, x); r.state();
  }
}
// The attitude stage reports what it computed last
template <typename P>
static void attitude_unit(mc::Run& r) {
  acro_controller::AcroController<P> a((P)r.pick(std::vector<double>{1, 2.5}, "mass"), em<P>(diag(20, 10, 8)));
  for (int k = 0; k < 2; k++) {
    V acc = r.pick(std::vector<V>{{1, 2, 3}, {0, 0, 0}, {-3, 1, -2}}, "acceleration");
    auto t = a.acceleration_to_thrust(e3<P>(acc));
    auto w = a.yaw_angle_to_angular_velocity(eq<P>(r.pick(attitudes(), "attitude")).toRotationMatrix(), (P)r.pick(std::vector<double>{0, 1.5}, "yaw"), t);
    r.step();
    eqm(r, a.get_desired_angular_velocity(), w, "body rates of the attitude stage");
    double n = ref::norm(v3(t)), q = a.get_desired_thrust();
    r.say([&] { return "thrust " + str(v3(t)) + " reported " + mc::num(q); });
    if (q == 0) r.known("attitude-stage-thrust-never-stored");
    else r.near(q, n, "thrust of the attitude stage", 1e-6);
    r.obs(v3(t)); r.obs(v3(w)); r.state();
  }
}
// any numbers unusual: all forms of all queries agree with each other and with what was set
static void unusual(mc::Run& r) {
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  auto pos = [&](double d, double lim, const char* n) { return std::fabs(r.wide(d, lim, n)); };
  int part = r.choose(5, "part");
  SimSpec w = spec(crooked(), busy_ctrl(standard()));
  w.start = flight(1, 4);
  w.gyro_var = 0.01; w.accel_var = 0.02; w.gyro_walk = 0.001; w.accel_walk = 0.002; w.alpha = 0.6; w.fnoise = 0.01;
  V p{1, -2, 3}, q{0.4, 0.5, -0.6}, a{0.2, 0.5, -0.1}, o{0.3, -0.5, 0.2};
  double th = 11, ya = 0.5, yr = 0.6, h = -3;
  std::vector<double> m = {800, 900, 1000, 1100};
  if (part == 0) {
    w.start.p = v(w.start.p, 1e8, "position"); w.start.v = v(w.start.v, 1e4, "velocity"); w.start.w = v(w.start.w, 100, "rates"); w.start.a = v(w.start.a, 1e4, "acceleration");
    w.start.force = v(w.start.force, 1e4, "force"); w.start.torque = v(w.start.torque, 1e4, "torque"); w.start.dw = v(w.start.dw, 1e4, "angular acceleration");
    for (int i = 0; i < 4; i++) { w.start.m[i] = pos(w.start.m[i], 1e3, "motor speed"); w.start.dm[i] = r.wide(w.start.dm[i], 1e4, "motor acceleration"); }
    double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 1.4, "pitch");
    w.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  } else if (part == 1) {
    p = v(p, 1e8, "position reference"); q = v(q, 1e8, "velocity reference"); a = v(a, 1e8, "acceleration reference"); o = v(o, 1e8, "rate reference");
    th = r.wide(th, 1e8, "thrust"); ya = r.wide(ya, 1e8, "yaw"); yr = r.wide(yr, 1e8, "yaw rate"); h = r.wide(h, 1e8, "floor");
    for (auto& x : m) x = r.wide(x, 1e8, "motor reference");
  } else if (part == 2) {
    w.body.mass = 1e-3 + pos(w.body.mass, 1e3, "mass"); w.body.drag = pos(w.body.drag, 1e3, "drag"); w.body.g = v(w.body.g, 1e3, "gravity"); w.fnoise = pos(w.fnoise, 1e3, "force noise"); w.mnoise = pos(w.mnoise, 1e3, "moment noise");
    for (int i = 0; i < 3; i++) w.body.aero[i][i] = pos(w.body.aero[i][i], 1e3, "aerodynamic moment");
    for (auto& x : w.body.rotors) { x.kf = 1e-9 + pos(x.kf, 1, "thrust coefficient"); x.kt = pos(x.kt, 1, "torque coefficient"); x.tau = 1e-3 + pos(x.tau, 1e3, "time constant"); x.inertia = pos(x.inertia, 1, "rotor inertia"); x.pos = v(x.pos, 1e3, "rotor position"); x.lo = 0; x.hi = 1 + pos(x.hi, 3e5, "highest speed"); }
  } else if (part == 3) {
    w.ctrl.mass = pos(w.ctrl.mass, 1e3, "mass"); w.ctrl.g = v(w.ctrl.g, 1e3, "gravity");
    for (auto* c : {&w.ctrl.rate, &w.ctrl.pos, &w.ctrl.vel, &w.ctrl.traj}) { c->kp = v(c->kp, 1e4, "kp"); c->ki = v(c->ki, 1e4, "ki"); c->kd = v(c->kd, 1e4, "kd"); c->aw[1] = pos(c->aw[1], 1e3, "anti-windup"); c->up = v({5, 5, 5}, 1e4, "upper limit"); c->lo = v({-5, -5, -5}, 1e4, "lower limit"); for (int i = 0; i < 3; i++) if (c->lo[i] > c->up[i]) std::swap(c->lo[i], c->up[i]); }
  } else {
    w.gyro_var = pos(w.gyro_var, 1e4, "gyroscope variance"); w.accel_var = pos(w.accel_var, 1e4, "accelerometer variance"); w.gyro_walk = pos(w.gyro_walk, 1e4, "gyroscope walk"); w.accel_walk = pos(w.accel_walk, 1e4, "accelerometer walk");
    w.imu_seed = (int)pos(3, 1e8, "seed");
    double x = r.wide(0.3, 10, "roll"), y = r.wide(0.2, 10, "pitch");
    w.imu_q = ref::rpy(x, y, r.wide(-0.1, 10, "yaw"));
    double z = r.wide(0.3, 10, "odometry roll"), u = r.wide(0.2, 10, "odometry pitch");
    w.odo_q = ref::rpy(z, u, r.wide(-0.1, 10, "odometry yaw"));
  }
  int mode = r.choose(6, "mode"), ym = r.choose(2, "yaw mode");
  Sim<> s(sim_params(w)), t(sim_params(w));
  for (auto* x : {&s, &t}) {
    x->set_control_mode(cmode(mode), ymode(ym));
    x->arm();
    x->set_reference_trajectory(e3(p), e3(q), e3(a)); x->set_reference_acro(th, e3(o)); x->set_reference_yaw_angle(ya); x->set_reference_yaw_rate(yr); x->set_refence_motors_angular_velocity(en<double, 4>(m));
    x->enable_floor_collision(h);
  }
  Refs f = refs(s);
  r.require(f.armed && f.floor && f.mode == (int)cmode(mode) && f.ymode == (int)ymode(ym), "modes and flags");
  r.same_v(f.pos, p, 3, "position reference"); r.same_v(f.vel, q, 3, "velocity reference"); r.same_v(f.acc, a, 3, "acceleration reference"); r.same_v(f.rate, o, 3, "rate reference");
  r.same(f.thrust, th, "thrust reference"); r.same(f.yaw, ya, "yaw reference"); r.same(f.yaw_rate, yr, "yaw rate reference"); r.same(f.height, h, "floor height"); r.same_v(f.motors, m, 4, "motor reference");
  same_state(r, get<double, 4>(s.get_state()), get<double, 4>(put<double, 4>(w.start)));
  q_sim<double, 4>(r, s, w.body);
  for (int k = 0; k < 2; k++) {
    for (auto* x : {&s, &t}) { x->update_controller(0.01); x->update_dynamics(0.01); x->update_imu(0.01); x->update_inertial_odometry(0.01); }
    r.step();
    q_sim<double, 4>(r, s, w.body);
    obs_all(r, s); obs_sensors(r, sensors(s)); r.state();
  }
  same_all<double, 4>(r, s, t);
}
// asking thousands of times changes nothing
static void endurance(mc::Run& r, int len) {
  SimSpec sp = spec(crooked(), busy_ctrl(standard()));
  sp.start = flight(1 + r.choose(2, "start"), 4);
  sp.fnoise = 0.01; sp.gyro_var = 0.01; sp.accel_var = 0.02; sp.gyro_walk = 0.001; sp.accel_walk = 0.002; sp.alpha = 0.6;
  Sim<> a(sim_params(sp)), b(sim_params(sp));
  int m = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  for (auto* x : {&a, &b}) { x->arm(); x->set_control_mode(cmode(m), ymode(y)); set_all_refs(*x, 1); x->enable_floor_collision(-50); }
  for (int k = 0; k < len; k++) {
    for (auto* x : {&a, &b}) { x->update_controller(0.005); x->update_dynamics(0.005); x->update_imu(0.005); x->update_inertial_odometry(0.005); }
    if (k % 500 == 499) for (auto* x : {&a, &b}) { x->get_dynamics().set_state(put<double, 4>(sp.start)); if (k % 1000 == 999) { x->get_imu().reset(); x->get_inertial_odometry().reset(); } }
    r.step();
    q_sim<double, 4>(r, a, sp.body);
    obs_all(r, a); r.state();
  }
  same_all<double, 4>(r, a, b);
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    ex.explore("history", "3 starts x all sequences of 9 operations, all queries", 0, [t](mc::Run& r) { history<double, 4>(r, t ? 4 : 3); });
    ex.explore("history_f6", "the same, six rotors, single precision", 0, [t](mc::Run& r) { history<float, 6>(r, t ? 3 : 2); });
    ex.explore("unusual", "5 parts x 12 modes, any " + std::string(t ? "2" : "1") + " numbers of unusual sign or size", t ? 2 : 1, unusual);
    ex.explore("endurance", "starts x modes, 1200 updates and all queries after each", 0, [](mc::Run& r) { endurance(r, 1200); });
    ex.explore("setters", "all sequences of 8 settings by reference and pointer", 0, [t](mc::Run& r) { setters<double, 4>(r, t ? 5 : 4); });
    ex.explore("setters_f6", "the same, six rotors, single precision", 0, [](mc::Run& r) { setters<float, 6>(r, 3); });
    ex.explore("sensors", "all sequences of 7 sensor operations", 0, [t](mc::Run& r) { sensor_units<double>(r, t ? 5 : 4); });
    ex.explore("sensors_f", "the same in single precision", 0, [](mc::Run& r) { sensor_units<float>(r, 3); });
    ex.explore("attitude", "masses x accelerations x attitudes x yaw", 0, attitude_unit<double>);
  });
}
