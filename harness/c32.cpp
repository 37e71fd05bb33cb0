// C32: objects of equal settings and history are equal, however they were built, copied or handed over.
#include <memory>
#include <vector>
#include "pidlib.hpp"
#include "sim.hpp"
using namespace qm;
using ref::V;
using D = std::vector<double>;
static void add(D& o, const D& v) { o.insert(o.end(), v.begin(), v.end()); }
static void add(D& o, const V& v) { o.insert(o.end(), v.begin(), v.end()); }
template <typename M>
static void add_m(D& o, const Eigen::MatrixBase<M>& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(m(i, j)); }
static void add_state(D& o, const ref::State& s) {
  for (const V* v : {&s.p, &s.v, &s.w, &s.a, &s.dw, &s.force, &s.torque}) add(o, *v);
  o.push_back(s.q.w); o.push_back(s.q.x); o.push_back(s.q.y); o.push_back(s.q.z);
  add(o, s.m); add(o, s.dm);
}
static Conf conf(int n, int k) {
  Conf c(n);
  c.kp = ramp(n, 2, 0.5); c.ki = ramp(n, 3, -0.4); c.kd = ramp(n, 0.1, 0.05); c.alpha = ramp(n, 0.9, -0.12);
  if (k >= 1) { c.aw = ramp(n, 0.3, 0.2); c.reset = true; c.up = ramp(n, 4, 1.5); c.lo = ramp(n, -5, 0.6); c.prop = k == 2; }
  return c;
}
static SimSpec noisy(int k) {
  SimSpec s = spec(k == 0 ? standard() : crooked(), busy_ctrl(standard()));
  s.start = flight(k == 0 ? 1 : 2, 4);
  s.fnoise = 0.02; s.mnoise = 0.01; s.gyro_var = 0.01; s.accel_var = 0.02; s.gyro_walk = 0.03; s.accel_walk = 0.04;
  s.imu_q = ref::rpy(0.1, -0.2, 0.3); s.odo_q = ref::rpy(0, 0.1, 0.5); s.alpha = 0.4; s.imu_seed = 7 + k; s.model_seed = 5 + k;
  return s;
}
// ---- the kinds of object: forms of construction for settings k, operations, view of everything that can be queried
template <typename P, int N>
struct PidKind {
  using T = pid_controller::PID<P, N>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = VPid<P, N>::params(conf(N, k));
    return {[=] { return new T(p); }, [=] { return new T(p, true); }, [=] { return new T(p, false); }, [=] { auto* t = new T; t->update_pid_params(p); return t; },
            [=] { T a(p); return new T(a.get_params()); }};
  }
  static const int settings = 3, ops = 6;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.compute_control((P)0.01, en<P, N>(ramp(N, 1, -0.6))); break;
      case 1: t.compute_control((P)0.2, en<P, N>(alt(N, -2, 0.5))); break;
      case 2: t.compute_control((P)0.05, en<P, N>(ramp(N, -3, 1.1)), en<P, N>(alt(N, 1, 2))); break;
      case 3: t.reset_controller(); break;
      case 4: t.set_gains_ki(en<P, N>(ramp(N, 0.7, 0.1))); break;
      case 5: t.set_output_saturation(en<P, N>(ramp(N, 1, 0.2)), en<P, N>(ramp(N, -2, 0.2)), true); break;
    }
  }
  static D view(const T& t) {
    D o;
    Conf c = VPid<P, N>::conf(t.get_params());
    for (auto* v : {&c.kp, &c.ki, &c.kd, &c.aw, &c.alpha, &c.up, &c.lo}) add(o, *v);
    o.push_back(c.reset + 2 * c.prop + 4 * t.get_output_saturation_flag());
    add(o, vn(t.get_output())); add(o, vn(t.get_proportional_error())); add(o, vn(t.get_derivative_error()));
    add(o, vn(t.get_proportional_error_contribution())); add(o, vn(t.get_integral_error_contribution())); add(o, vn(t.get_derivative_error_contribution()));
    return o;
  }
};
struct Pid1Kind {
  using T = pid_1d_controller::PID<double>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = SPid<double>::params(conf(1, k));
    return {[=] { return new T(p); }, [=] { return new T(p, true); }, [=] { auto* t = new T; t->update_params(p); return t; }, [=] { T a(p); return new T(a.get_params()); }};
  }
  static const int settings = 2, ops = 6;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.compute_control(0.01, 1); break;
      case 1: t.compute_control(0.2, -2); break;
      case 2: t.compute_control(0.05, -3, 1); break;
      case 3: t.reset_controller(); break;
      case 4: t.set_ki(0.7); break;
      case 5: t.set_output_saturation(1, -2); break;
    }
  }
  static D view(const T& t) {
    Conf c = SPid<double>::conf(t.get_params());
    return {c.kp[0], c.ki[0], c.kd[0], c.aw[0], c.alpha[0], c.up[0], c.lo[0], (double)(c.reset + 2 * t.get_output_saturation_flag()), t.get_output(), t.get_proportional_error(), t.get_derivative_error(),
            t.get_proportional_error_contribution(), t.get_integral_error_contribution(), t.get_derivative_error_contribution()};
  }
};
template <typename P>
struct ImuKind {
  using T = imu::IMU<P>;
  static imu::IMUParams<P> par(int k) {
    auto p = imu_params<P>(noisy(k % 2));
    if (k == 2) p = imu::IMUParams<P>();
    return p;
  }
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = par(k);
    std::vector<std::function<T*()>> f = {[=] { return new T(p); }, [=] { return new T(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time, p.imu_orientation, p.seed); }};
    if (k == 2) f.push_back([] { return new T(); });
    return f;
  }
  static const int settings = 3, ops = 6;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.update((P)0.01, e3<P>({1, 2, 9}), e3<P>({0.4, -0.5, 0.6})); break;
      case 1: t.update((P)0.2, e3<P>({-3, 0, 1}), e3<P>({-4, 0.1, 2})); break;
      case 2: t.reset(); break;
      case 3: t.set_noise_variances((P)0.5, (P)0.25); break;
      case 4: t.set_random_seed(11); break;
      case 5: t.set_orientation(eq<P>(ref::rpy(0.5, 0.2, -0.4))); break;
    }
  }
  static D view(const T& t) {
    D o;
    E3<P> a, b;
    t.get_measurement(a, b); add(o, v3(a)); add(o, v3(b));
    t.get_bias(a, b); add(o, v3(a)); add(o, v3(b));
    P x, y;
    t.get_variances(x, y); o.push_back(x); o.push_back(y);
    return o;
  }
};
template <typename P>
struct OdoKind {
  using T = imu::InertialOdometry<P>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = odo_params<P>(noisy(k % 2));
    if (k == 1) p.alpha = 1;
    if (k == 2) p = imu::InertialOdometryParams<P>();
    std::vector<std::function<T*()>> f = {[=] { return new T(p); }, [=] { return new T(p.alpha, p.initial_world_orientation); }};
    if (k == 2) f.push_back([] { return new T(); });
    return f;
  }
  static const int settings = 3, ops = 4;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.update(e3<P>({0.4, -0.5, 0.6}), e3<P>({1, 2, 9}), (P)0.01); break;
      case 1: t.update(e3<P>({-4, 0.1, 2}), e3<P>({-3, 0, 1}), (P)0.2); break;
      case 2: t.reset(); break;
      case 3: t.set_initial_orientation(eq<P>(ref::rpy(0.5, 0.2, -0.4))); break;
    }
  }
  static D view(const T& t) {
    Sensors z;
    odo_into(z, t);
    D o;
    add(o, z.p); add(o, z.v); add(o, z.w); add(o, z.a);
    for (double x : flat_q(z.q)) o.push_back(x);
    return o;
  }
};
template <typename P, int N>
struct DynKind {
  using T = multirotor::dynamics::Dynamics<P, N>;
  using M = multirotor::model::Model<P, N>;
  static SimSpec sp(int k) {
    SimSpec s = noisy(k % 2);
    if (N == 6) { s.body = hexa(); s.start = flight(1 + k % 2, 6); }
    if (k == 2) s.model_seed = 0;
    return s;
  }
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = dyn_params<P, N>(sp(k));
    std::vector<std::function<T*()>> f = {[=] { return new T(p); }, [=] { return new T(p.model_params, p.model_seed, p.state); }, [=] { return new T(M(p.model_params, p.model_seed), p.state); },
                                          [=] { auto* t = new T(M(p.model_params, p.model_seed)); t->set_state(p.state); return t; },
                                          [=] { auto* t = new T; t->set_model(M(p.model_params, p.model_seed)); t->set_state(p.state); return t; }};
    if (k == 2) { f.push_back([=] { return new T(p.model_params, p.state); }); f.push_back([=] { return new T(M(p.model_params), p.state); }); }
    return f;
  }
  static const int settings = 3, ops = 5;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.process_euler_explicit(pattern<P, N>(1100, 20), (P)0.01, e3<P>({0, 0, 0}), true); break;
      case 1: t.process_euler_explicit(pattern<P, N>(1000, -40), (P)0.037, e3<P>({0.3, -0.2, 0.1}), true); break;
      case 2: t.process_euler_explicit(pattern<P, N>(300, 0), (P)0.005, e3<P>({0, 0, 9}), false); break;
      case 3: t.set_state(put<P, N>(flight(4, N))); break;
      case 4: { auto m = model_params<P, N>(sp(1).body); m.force_process_noise_auto_correlation = (P)0.3; t.set_model(M(m, 3)); break; }
    }
  }
  static D view(const T& t) {
    D o;
    add_state(o, get<P, N>(t.get_state()));
    const auto& m = t.get_model_const();
    o.push_back(m.get_mass()); add_m(o, m.get_vehicle_inertia()); add_m(o, m.get_gravity()); add_m(o, m.get_mixer_matrix()); add_m(o, m.get_stochastic_force()); add_m(o, m.get_stochastic_moment()); o.push_back(m.get_force_process_noise_auto_correlation());
    return o;
  }
};
// the five stages
template <typename C>
static D pid_view(const C& p) {
  D o;
  add(o, v3(p.get_output())); add(o, v3(p.get_proportional_error())); add(o, v3(p.get_derivative_error())); add(o, v3(p.get_integral_error_contribution()));
  auto s = p.get_params();
  add(o, v3(s.Kp_gains)); add(o, v3(s.Ki_gains)); add(o, v3(s.Kd_gains)); add(o, v3(s.antiwindup_cte)); add(o, v3(s.alpha)); add(o, v3(s.upper_output_saturation)); add(o, v3(s.lower_output_saturation));
  o.push_back(s.reset_integral_flag + 2 * s.proportional_saturation_flag + 4 * p.get_output_saturation_flag());
  return o;
}
static CtrlSpec cspec(int k) { return k == 0 ? busy_ctrl(standard()) : k == 1 ? standard_ctrl(standard()) : [] { auto c = busy_ctrl(crooked()); c.mass = 1.7; c.kp_rot = diag(6, 9, 3); c.rate.reset = true; c.traj.up = {9, 8, 7}; c.traj.lo = {-7, -8, -9}; return c; }(); }
struct PosKind {
  using T = position_controller::PositionController<double>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = ctrl_params(cspec(k)).position_controller_params;
    return {[=] { return new T(p); }, [=] { return new T(p.pid_params); }, [=] { auto* t = new T; t->update_params(p); return t; }};
  }
  static const int settings = 3, ops = 4;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.position_to_linear_velocity(e3({0.1, 0.2, 0.3}), e3({1, -1, 2}), 0.01); break;
      case 1: t.position_to_linear_velocity(e3({-4, 6, 2}), e3({0, 1, 0}), 0.1); break;
      case 2: t.reset_controller(); break;
      case 3: t.update_params(ctrl_params(cspec(2)).position_controller_params); break;
    }
  }
  static D view(const T& t) { return pid_view(t); }
};
struct VelKind {
  using T = velocity_controller::VelocityController<double>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = ctrl_params(cspec(k)).velocity_controller_params;
    return {[=] { return new T(p); }, [=] { return new T(p.pid_params); }, [=] { auto* t = new T; t->update_params(p); return t; }};
  }
  static const int settings = 3, ops = 4;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.linear_velocity_to_linear_acceleration(e3({0.1, 0.2, 0.3}), e3({1, -1, 2}), 0.01); break;
      case 1: t.linear_velocity_to_linear_acceleration(e3({-4, 6, 2}), e3({0, 1, 0}), 0.1); break;
      case 2: t.reset_controller(); break;
      case 3: t.update_params(ctrl_params(cspec(2)).velocity_controller_params); break;
    }
  }
  static D view(const T& t) { return pid_view(t); }
};
struct TrajKind {
  using T = trajectory_controller::TrajectoryController<double>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = ctrl_params(cspec(k)).trajectory_controller_params;
    return {[=] { return new T(p); }, [=] { return new T(p.pid_params); }, [=] { auto* t = new T; t->update_params(p); return t; }};
  }
  static const int settings = 3, ops = 4;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.trajectory_to_linear_acceleration(e3({0.1, 0.2, 0.3}), e3({0.3, 0, 1}), e3({1, -1, 2}), e3({0.5, 0.6, -0.7}), e3({0.1, 0.2, 0.4}), 0.01); break;
      case 1: t.trajectory_to_linear_acceleration(e3({-4, 6, 2}), e3({2, 2, -1}), e3({0, 1, 0}), e3({0, 0, 0}), e3({0, 0, 1}), 0.1); break;
      case 2: t.reset_controller(); break;
      case 3: t.update_params(ctrl_params(cspec(2)).trajectory_controller_params); break;
    }
  }
  static D view(const T& t) { return pid_view(t); }
};
struct AcroKind {
  using T = acro_controller::AcroController<double>;
  static acro_controller::AcroControllerParams<double> par(int k) {
    auto p = ctrl_params(cspec(k % 3)).acro_controller_params;
    if (k == 1) p.gravity = acro_controller::AcroControllerParams<double>().gravity;
    if (k == 2) p.gravity = e3({0.2, -0.1, -3.7});
    return p;
  }
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = par(k);
    std::vector<std::function<T*()>> f = {[=] { return new T(p); }, [=] { return new T(p.vehicle_mass, p.kp_rot, p.gravity); }, [=] { auto* t = new T; t->update_params(p); return t; },
                                          [=] { auto* t = new T; t->update_gravity(p.gravity); t->update_kp_rot(p.kp_rot); t->update_vehicle_mass(p.vehicle_mass); return t; }};
    if (k == 1) f.push_back([=] { return new T(p.vehicle_mass, p.kp_rot); });
    return f;
  }
  static const int settings = 3, ops = 4;
  static void op(T& t, int o) {
    auto R = em(ref::qmat(ref::rpy(0.2, -0.3, 0.5)));
    switch (o) {
      case 0: t.yaw_angle_to_angular_velocity(R, 0.4, t.acceleration_to_thrust(e3({0.5, 1, -2}))); break;
      case 1: t.yaw_angle_to_angular_velocity(R, -2.4, t.acceleration_to_thrust(e3({-5, 1, 3}))); break;
      case 2: t.update_vehicle_mass(3); break;
      case 3: t.update_params(par(2)); break;
    }
  }
  static D view(const T& t) {
    D o{t.get_vehicle_mass()};
    add(o, v3(t.get_gravity())); add_m(o, t.get_kp_rot()); add(o, v3(t.get_desired_angular_velocity()));
    T c = t;
    add(o, v3(c.acceleration_to_thrust(e3({0.5, 1, -2}))));
    return o;
  }
};
template <typename P, int N>
struct IndiKind {
  using T = indi_controller::IndiController<P, N>;
  static indi_controller::IndiControllerParams<P, N> par(int k) {
    CtrlSpec s = cspec(k);
    while ((int)s.alloc.size() < N) s.alloc.push_back({0, 1e3, 1e5, 2e5, -3e5, 1e5});
    return ctrl_params<P, N>(s).indi_controller_params;
  }
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = par(k);
    return {[=] { return new T(p); }, [=] { return new T(p.inertia, p.mixer_matrix_inverse, p.pid_params); }, [=] { auto* t = new T; t->update_params(p); return t; },
            [=] { auto* t = new T; t->update_mixer_matrix_inverse(p.mixer_matrix_inverse); t->update_inertia(p.inertia); t->update_pid_params(p.pid_params); return t; }};
  }
  static const int settings = 3, ops = 5;
  static void op(T& t, int o) {
    switch (o) {
      case 0: t.acro_to_motor_angular_velocity(e3<P>({0.1, 0.2, 0.3}), (P)9, e3<P>({0.5, 0.2, -0.4}), (P)0.01); break;
      case 1: t.acro_to_motor_angular_velocity(e3<P>({-4, 3, 2}), (P)15, e3<P>({0, 1, 0}), (P)0.1); break;
      case 2: t.reset_controller(); break;
      case 3: t.update_params(par(2)); break;
      case 4: t.update_inertia(em<P>(diag(0.2, 0.3, 0.4))); break;
    }
  }
  static D view(const T& t) {
    D o = pid_view(t);
    add_m(o, t.get_inertia()); add_m(o, t.get_mixer_matrix_inverse());
    add(o, v3(t.get_desired_thrust())); add(o, v3(t.get_desired_torque())); add(o, v3(t.get_desired_angular_acceleration())); add(o, v3(t.get_angular_velocity_error())); add(o, vn(t.get_motor_angular_velocity()));
    return o;
  }
};
struct CtrlKind {
  using T = multirotor::controller::Controller<double, 4>;
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = ctrl_params(cspec(k));
    return {[=] { return new T(p); }, [=] { return new T(p.acro_controller_params, p.indi_controller_params, p.position_controller_params, p.trajectory_controller_params, p.velocity_controller_params); },
            [=] { auto* t = new T; t->update_params(p); return t; }};
  }
  static const int settings = 3, ops = 6;
  static void op(T& c, int o) {
    V p{0.3, -0.2, 1.5}, v{0.1, 0.4, -0.3}, w{0.2, -0.5, 0.1};
    auto R = em(ref::qmat(ref::rpy(0.2, -0.3, 0.5)));
    switch (o) {
      case 0: c.compute_position_control(e3(p), R, e3(v), e3(w), e3({2, 1, 3}), -0.4, 0.02); break;
      case 1: c.compute_velocity_control(e3(v), R, e3(w), e3({1, -1, 0.5}), 0.3, 0.01); break;
      case 2: c.compute_trajectory_control(e3(p), e3(v), R, e3(w), e3({-1, 1, 2}), e3({0.2, 0.3, 0}), e3({0.1, 0, -0.2}), 1.2, 0.01); break;
      case 3: c.reset_controller(); break;
      case 4: c.update_velocity_controller_params(ctrl_params(cspec(2)).velocity_controller_params); break;
      case 5: c.get_acro_controller().update_vehicle_mass(3); break;
    }
  }
  static D view(const T& t) { return ctrl_view<double, 4>(t); }
};
template <typename P, int N>
struct SimKind {
  using T = Sim<P, N>;
  static SimSpec sp(int k) {
    SimSpec s = noisy(k % 2);
    if (N == 6) { s.body = hexa(); s.start = flight(1 + k % 2, 6); s.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); s.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); }
    return s;
  }
  static std::vector<std::function<T*()>> forms(int k) {
    auto p = sim_params<P, N>(sp(k));
    return {[=] { return new T(p); }, [=] { auto* t = new T(sim_params<P, N>(sp(k))); return t; },
            [=] { auto* t = new T; t->get_dynamics() = multirotor::dynamics::Dynamics<P, N>(p.dynamics_params); t->set_controller_params(p.controller_params); t->set_imu_params(p.imu_params);
                  t->set_inertial_odometry_params(p.inertial_odometry_params); return t; }};
  }
  static const int settings = 2, ops = 9;
  static void op(T& s, int o) {
    switch (o) {
      case 0: s.arm(); s.update_controller((P)0.01); s.update_dynamics((P)0.02); s.update_imu((P)0.02); s.update_inertial_odometry((P)0.02); break;
      case 1: s.arm(); s.set_control_mode(multirotor::POSITION); s.set_reference_position(e3<P>({2, -1, 4})); s.set_reference_yaw_angle((P)1); break;
      case 2: s.set_control_mode(multirotor::TRAJECTORY, multirotor::YawControlMode::RATE); s.set_reference_trajectory(e3<P>({1, 2, 3}), e3<P>({0.1, 0, 0}), e3<P>({0, 0.2, 0})); s.set_reference_yaw_rate((P)0.3); break;
      case 3: s.enable_floor_collision((P)1.8); break;
      case 4: s.disarm(); s.update_dynamics((P)0.05); break;
      case 5: s.get_imu().set_noise_variances((P)0.3, (P)0.2); s.update_imu((P)0.01); break;
      case 6: s.set_control_mode(multirotor::ACRO); s.set_reference_acro((P)12, e3<P>({0.1, 0.2, 0.3})); break;
      case 7: s.set_control_mode(multirotor::MOTOR_W); s.set_refence_motors_angular_velocity(pattern<P, N>(900, 25)); break;
      case 8: s.enable_floor_collision((P)30); s.update_imu((P)0.01); s.update_dynamics((P)0.01); break;  // contact
    }
  }
  static D view(const T& s) {
    D o;
    add_state(o, get<P, N>(s.get_state()));
    add(o, ctrl_view<P, N>(s.get_controller_const()));
    Sensors z = sensors<P, N>(s);
    for (const V* v : {&z.gyro, &z.accel, &z.gbias, &z.abias, &z.p, &z.v, &z.w, &z.a}) add(o, *v);
    for (double x : flat_q(z.q)) o.push_back(x);
    Refs q = refs<P, N>(s);
    add(o, D{(double)q.armed, (double)q.floor, q.height, q.thrust, q.yaw, q.yaw_rate, (double)q.mode, (double)q.ymode});
    for (const V* v : {&q.rate, &q.pos, &q.vel, &q.acc, &q.ext}) add(o, *v);
    add(o, q.motors); add(o, q.act);
    return o;
  }
};
template <typename K>
static void same(mc::Run& r, const typename K::T& a, const typename K::T& e, const char* what) {
  auto x = K::view(a), y = K::view(e);
  r.require(x.size() == y.size(), "number of queries");
  for (size_t i = 0; i < x.size(); i++)
    if (!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) {
      r.say([&] { return std::string(what) + ": query " + std::to_string(i) + " is " + mc::num(x[i]) + ", expected " + mc::num(y[i]); });
      r.require(false, what);
    }
  for (double v : x) r.obs(v);
}
// All forms of construction, then the same operations
template <typename K>
static void forms(mc::Run& r, int depth) {
  int k = r.choose(K::settings, "settings");
  auto f = K::forms(k);
  std::vector<std::unique_ptr<typename K::T>> v;
  for (auto& g : f) v.emplace_back(g());
  for (int i = 0; i <= depth; i++) {
    if (i) { int o = r.choose(K::ops, "operation"); for (auto& t : v) K::op(*t, o); }
    r.step();
    if (!r.novel()) continue;
    for (size_t j = 1; j < v.size(); j++) same<K>(r, *v[j], *v[0], "forms of construction differ");
    r.state();
  }
}
// History, hand-over, operations on the copy and on the original in any order
template <typename K>
static void handover(mc::Run& r, int before, int after) {
  using T = typename K::T;
  int k = r.choose(K::settings, "settings");
  auto make = [&](int s, const std::vector<int>& ops) {
    std::unique_ptr<T> t(K::forms(s)[0]());
    for (int o : ops) K::op(*t, o);
    return t;
  };
  std::vector<int> h;
  for (int i = 0; i < before; i++) h.push_back(r.choose(K::ops, "operation"));
  auto a = make(k, h);
  std::unique_ptr<T> b;
  int way = r.choose(7, "handed over by copy, assignment, assignment over a used object, move, vector, self assignment, copy of a dead original");
  switch (way) {
    case 0: b.reset(new T(*a)); break;
    case 1: b.reset(new T()); *b = *a; break;
    case 2: b = make(0, {0, 1, 2, 1}); *b = *a; break;
    case 3: { T c(*a); b.reset(new T(std::move(c))); break; }
    case 4: { std::vector<T, Eigen::aligned_allocator<T>> v; v.push_back(*a); for (int i = 0; i < 5; i++) v.push_back(T()); b.reset(new T(v[0])); break; }
    case 5: { T& x = *a; *a = x; b.reset(new T(*a)); break; }
    case 6: b.reset(new T(*a)); a.reset(); break;
  }
  r.step();
  auto ea = make(k, h), eb = make(k, h);
  for (int i = 0; i <= after; i++) {
    if (i) {
      int who = a ? r.choose(2, "original or copy") : 1, o = r.choose(K::ops, "operation");
      K::op(who ? *b : *a, o);
      K::op(who ? *eb : *ea, o);
    }
    r.step();
    if (!r.novel()) continue;
    same<K>(r, *b, *eb, "copy differs from an object of the same history");
    if (a) same<K>(r, *a, *ea, "original changed by its copy");
    r.state();
  }
}
template <typename K>
static void both(mc::Explorer& ex, const std::string& name, int f, int before, int after) {
  bool t = ex.thorough;
  f += t; after += t;
  ex.explore(name + "_forms", "settings x forms of construction, then all sequences of " + std::to_string(f) + " operations", 0, [f](mc::Run& r) { forms<K>(r, f); });
  ex.explore(name + "_handover", "settings x all histories of " + std::to_string(before) + " operations x 7 ways to hand over x all sequences of " + std::to_string(after) + " operations on original or copy", 0,
             [before, after](mc::Run& r) { handover<K>(r, before, after); });
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    both<PidKind<double, 3>>(ex, "pid3", 4, 2, 2);
    both<PidKind<float, 2>>(ex, "pid2_f", 3, 1, 2);
    both<Pid1Kind>(ex, "pid1", 4, 2, 2);
    both<ImuKind<double>>(ex, "imu", 4, 2, 2);
    both<ImuKind<float>>(ex, "imu_f", 2, 1, 1);
    both<OdoKind<double>>(ex, "odometry", 4, 2, 2);
    both<DynKind<double, 4>>(ex, "dynamics", 4, 2, 2);
    both<DynKind<float, 6>>(ex, "dynamics_f6", 2, 1, 1);
    both<PosKind>(ex, "position", 4, 2, 2);
    both<VelKind>(ex, "velocity", 4, 2, 2);
    both<TrajKind>(ex, "trajectory", 4, 2, 2);
    both<AcroKind>(ex, "attitude", 4, 2, 2);
    both<IndiKind<double, 4>>(ex, "rate", 4, 2, 2);
    both<IndiKind<float, 6>>(ex, "rate_f6", 2, 1, 1);
    both<CtrlKind>(ex, "stack", 4, 2, 2);
    both<SimKind<double, 4>>(ex, "simulator", 3, 2, 2);
    both<SimKind<float, 6>>(ex, "simulator_f6", 2, 1, 1);
  });
}
