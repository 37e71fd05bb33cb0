// C27: chaining of the controller stages. Stand-alone stages, fed with the set-points the stack reports,
// have to produce the next reported set-point; set-points of stages not called stay what they were.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P, int N> using Ctrl = multirotor::controller::Controller<P, N>;
struct Feed { V p, v, w; ref::Q q; };
static const std::vector<Feed>& feeds() {
  static const std::vector<Feed> f = {
      {{0.5, -1.5, 2.5}, {0.3, -0.4, 0.2}, {0.1, 0.2, -0.3}, ref::rpy(0.2, -0.1, 0.8)},
      {{-3, 2, 6}, {-1.5, 2, -3}, {2, -1.5, 1}, ref::rpy(-0.9, 0.7, -2.6)},
      {{1, 1, 30}, {4, -6, 1}, {-4, 3, 5}, ref::rpy(2.8, 0.4, 1.0)}};
  return f;
}
struct Setpoints { V p, v, a, w; double thrust; std::vector<double> m; };
template <typename P, int N>
static Setpoints reported(const Ctrl<P, N>& c) {
  return {v3(c.get_desired_position()), v3(c.get_desired_linear_velocity()), v3(c.get_desired_linear_acceleration()), v3(c.get_desired_angular_velocity()),
          (double)c.get_desired_thrust(), vn(c.get_desired_motor_angular_velocity())};
}
template <typename P, int N>
struct Stack {
  Ctrl<P, N> c;
  position_controller::PositionController<P> pos;
  velocity_controller::VelocityController<P> vel;
  trajectory_controller::TrajectoryController<P> traj;
  acro_controller::AcroController<P> acro;
  indi_controller::IndiController<P, N> indi;
  Setpoints last;
  using Params = multirotor::controller::ControllerParams<P, N>;
  explicit Stack(const Params& p)
      : c(p), pos(p.position_controller_params), vel(p.velocity_controller_params), traj(p.trajectory_controller_params), acro(p.acro_controller_params), indi(p.indi_controller_params) {
    last = reported(c);
  }
  static double tol() { return sizeof(P) == 4 ? 2e-4 : 1e-9; }
  void v(mc::Run& r, const V& a, const V& e, const char* what) { r.near_v(a, e, 3, what, tol()); }
  void rate_stage(mc::Run& r, const Feed& f, const Setpoints& s, const EN<P, N>& out, double dt) {
    auto m = indi.acro_to_motor_angular_velocity(e3<P>(f.w), (P)s.thrust, e3<P>(s.w), (P)dt);
    r.near_v(s.m, vn(m), N, "motor speeds do not come from the reported thrust and body rates", tol());
    r.near_v(vn(out), s.m, N, "returned motor speeds differ from the reported ones", tol());
  }
  void attitude_stage(mc::Run& r, const Feed& f, double yaw, const Setpoints& s) {
    EM<P> R = eq<P>(f.q).toRotationMatrix();
    auto t = acro.acceleration_to_thrust(e3<P>(s.a));
    auto w = acro.yaw_angle_to_angular_velocity(R, (P)yaw, t);
    V b = {R(0, 2), R(1, 2), R(2, 2)};
    double th = ref::dot(v3(t), b);
    double big = ref::norm(v3(t)), far = ref::norm(ref::cross(ref::unit(v3(t)), V{std::cos(yaw), std::sin(yaw), 0}));
    if (std::fabs(th) < 1e-6 * std::max(1.0, big)) return;
    if (th < 0) { r.near(s.thrust, 0, "thrust", tol()); v(r, s.w, V{}, "body rates while the thrust is limited to zero"); }
    else { r.near(s.thrust, th, "thrust does not come from the reported acceleration", tol()); if (far > 1e-3) v(r, s.w, v3(w), "body rates do not come from the reported acceleration"); }
  }
  void keep(mc::Run& r, const Setpoints& s, bool p, bool vv, bool a) {
    if (p) r.same_v(s.p, last.p, 3, "position set-point of an earlier call");
    if (vv) r.same_v(s.v, last.v, 3, "velocity set-point of an earlier call");
    if (a) r.same_v(s.a, last.a, 3, "acceleration set-point of an earlier call");
  }
  void done(mc::Run& r, const Setpoints& s, const char* what) {
    r.say([&] { return std::string(what) + ": set-points p " + str(s.p) + " v " + str(s.v) + " a " + str(s.a) + " thrust " + mc::num(s.thrust) + " w " + str(s.w) + " motors " + str(s.m); });
    // the stages inside report the same
    v(r, v3(c.get_indi_controller_const().get_desired_thrust()), V{0, 0, s.thrust}, "thrust used by the rate stage");
    r.near_v(vn(c.get_indi_controller_const().get_motor_angular_velocity()), s.m, N, "motor speeds of the rate stage", tol());
    last = s;
    r.obs(s.p); r.obs(s.v); r.obs(s.a); r.obs(s.w); r.obs(s.thrust); r.obs(s.m);
    r.state();
  }
  void acro_call(mc::Run& r, const Feed& f, double thrust, const V& w, double dt) {
    auto m = c.compute_acro_control(e3<P>(f.w), (P)thrust, e3<P>(w), (P)dt);
    Setpoints s = reported(c);
    r.step();
    v(r, s.w, w, "body rate set-point"); r.near(s.thrust, thrust, "thrust set-point", tol());
    rate_stage(r, f, s, m, dt);
    keep(r, s, true, true, true);
    done(r, s, "acro");
  }
  void accel_call(mc::Run& r, const Feed& f, const V& a, double yaw, double dt) {
    auto m = c.compute_acceleration_control(eq<P>(f.q).toRotationMatrix(), e3<P>(f.w), e3<P>(a), (P)yaw, (P)dt);
    Setpoints s = reported(c);
    r.step();
    v(r, s.a, a, "acceleration set-point");
    attitude_stage(r, f, yaw, s);
    rate_stage(r, f, s, m, dt);
    keep(r, s, true, true, false);
    done(r, s, "acceleration");
  }
  void velocity_call(mc::Run& r, const Feed& f, const V& vd, double yaw, double dt) {
    auto m = c.compute_velocity_control(e3<P>(f.v), eq<P>(f.q).toRotationMatrix(), e3<P>(f.w), e3<P>(vd), (P)yaw, (P)dt);
    Setpoints s = reported(c);
    r.step();
    v(r, s.v, vd, "velocity set-point");
    v(r, s.a, v3(vel.linear_velocity_to_linear_acceleration(e3<P>(f.v), e3<P>(s.v), (P)dt)), "acceleration does not come from the velocity set-point");
    v(r, v3(c.get_velocity_controller_const().get_desired_linear_acceleration()), s.a, "acceleration of the velocity stage");
    v(r, v3(c.get_velocity_controller_const().get_velocity_error()), s.v - f.v, "velocity error");
    attitude_stage(r, f, yaw, s);
    rate_stage(r, f, s, m, dt);
    keep(r, s, true, false, false);
    done(r, s, "velocity");
  }
  void position_call(mc::Run& r, const Feed& f, const V& pd, double yaw, double dt) {
    auto m = c.compute_position_control(e3<P>(f.p), eq<P>(f.q).toRotationMatrix(), e3<P>(f.v), e3<P>(f.w), e3<P>(pd), (P)yaw, (P)dt);
    Setpoints s = reported(c);
    r.step();
    v(r, s.p, pd, "position set-point");
    v(r, s.v, v3(pos.position_to_linear_velocity(e3<P>(f.p), e3<P>(s.p), (P)dt)), "velocity does not come from the position set-point");
    v(r, s.a, v3(vel.linear_velocity_to_linear_acceleration(e3<P>(f.v), e3<P>(s.v), (P)dt)), "acceleration does not come from the reported velocity");
    v(r, v3(c.get_position_controller_const().get_desired_linear_velocity()), s.v, "velocity of the position stage");
    v(r, v3(c.get_position_controller_const().get_position_error()), s.p - f.p, "position error");
    v(r, v3(c.get_velocity_controller_const().get_velocity_error()), s.v - f.v, "velocity error");
    attitude_stage(r, f, yaw, s);
    rate_stage(r, f, s, m, dt);
    done(r, s, "position");
  }
  void trajectory_call(mc::Run& r, const Feed& f, const V& pd, const V& vd, const V& ad, double yaw, double dt) {
    auto m = c.compute_trajectory_control(e3<P>(f.p), e3<P>(f.v), eq<P>(f.q).toRotationMatrix(), e3<P>(f.w), e3<P>(pd), e3<P>(vd), e3<P>(ad), (P)yaw, (P)dt);
    Setpoints s = reported(c);
    r.step();
    v(r, s.p, pd, "position set-point"); v(r, s.v, vd, "velocity set-point");
    v(r, s.a, v3(traj.trajectory_to_linear_acceleration(e3<P>(f.p), e3<P>(f.v), e3<P>(s.p), e3<P>(s.v), e3<P>(ad), (P)dt)), "acceleration does not come from the trajectory set-point");
    v(r, v3(c.get_trajectory_controller_const().get_position_error()), s.p - f.p, "trajectory position error");
    attitude_stage(r, f, yaw, s);
    rate_stage(r, f, s, m, dt);
    done(r, s, "trajectory");
  }
  void reset(mc::Run& r) {
    c.reset_controller();
    pos.reset_controller(); vel.reset_controller(); traj.reset_controller(); indi.reset_controller();
    r.step();
    last = reported(c);
  }
  void params(int stage, const Params& p) {
    switch (stage) {
      case 0: c.update_acro_controller_params(p.acro_controller_params); acro.update_params(p.acro_controller_params); break;
      case 1: c.update_indi_controller_params(p.indi_controller_params); indi.update_params(p.indi_controller_params); break;
      case 2: c.update_position_controller_params(p.position_controller_params); pos.update_params(p.position_controller_params); break;
      case 3: c.update_trajectory_controller_params(p.trajectory_controller_params); traj.update_params(p.trajectory_controller_params); break;
      case 4: c.update_velocity_controller_params(p.velocity_controller_params); vel.update_params(p.velocity_controller_params); break;
      default:
        c.update_params(p);
        acro.update_params(p.acro_controller_params); indi.update_params(p.indi_controller_params); pos.update_params(p.position_controller_params);
        traj.update_params(p.trajectory_controller_params); vel.update_params(p.velocity_controller_params);
    }
    last = reported(c);
  }
};
static CtrlSpec config(int k) {
  ref::Vehicle b = standard();
  CtrlSpec c = k == 0 ? busy_ctrl(b) : standard_ctrl(b);
  if (k == 2) {
    c = busy_ctrl(crooked());
    c.mass = 1.7; c.g = {0.1, -0.2, -8};
    c.kp_rot = diag(6, 9, 3);
    c.rate.kp = {4, 6, 8}; c.pos.kp = {2, 3, 4}; c.pos.up = {}; c.pos.lo = {}; c.vel.kp = {3, 1, 2}; c.vel.ki = {1, 1, 1}; c.traj.kp = {3, 4, 5}; c.traj.kd = {1, 2, 3}; c.traj.ki = {1, 2, 1};
  }
  return c;
}
static std::vector<std::array<double, 6>> wide(int n) {
  std::vector<std::array<double, 6>> a;
  for (int i = 0; i < n; i++) a.push_back({1e3 * i, -2e3 * i, 9e4 + 3e3 * i, 1e6 * (i % 3 - 1), 8e5 * (i % 2 ? 1 : -1), 4e5 * (i % 2 ? -1 : 1)});
  return a;
}
template <typename P, int N>
static void calls(mc::Run& r, int depth) {
  auto cfg = [](int k) {
    CtrlSpec s = config(k);
    if (N != 4) s.alloc = wide(N);
    return ctrl_params<P, N>(s);
  };
  Stack<P, N> s(cfg(r.choose(2, "gains")));
  const Feed& f = feeds()[r.choose(3, "feedback")];
  const Feed& g = feeds()[0];
  for (int k = 0; k < depth; k++) {
    switch (r.choose(13)) {
      case 0: s.position_call(r, f, {1, -2, 4}, 0.5, 0.01); break;
      case 1: s.velocity_call(r, f, {0.4, 0.5, -0.6}, -1.5, 0.01); break;
      case 2: s.trajectory_call(r, f, {0.5, 0, 2}, {0.1, -0.3, 0.4}, {0.2, 0.5, -0.1}, 2.0, 0.01); break;
      case 3: s.acro_call(r, f, 11, {0.3, -0.5, 0.2}, 0.01); break;
      case 4: s.accel_call(r, f, {1, -0.5, 0.7}, 0.1, 0.02); break;
      case 5: s.position_call(r, g, {-4, 9, 0}, -2.5, 0.05); break;
      case 6: s.velocity_call(r, g, {7, -3, 2}, 3, 0.002); break;
      case 7: s.trajectory_call(r, g, {0.4, -1.4, 2.6}, {0, 0, 0}, {0, 0, 0}, 0, 0.02); break;
      case 8: s.acro_call(r, g, 0, {-6, 0, 9}, 0.05); break;
      case 9: s.accel_call(r, g, {0, 0, -20}, 0, 0.01); break;  // points downwards
      case 10: s.reset(r); break;
      default: s.params(r.choose(6, "stage"), cfg(2)); break;
      case 12: s.params(r.choose(6, "stage"), cfg(0)); break;
    }
  }
  s.position_call(r, f, {0, 0, 1}, 0, 0.01);
  s.trajectory_call(r, f, {0, 0, 1}, {1, 0, 0}, {0, 0, 0.5}, 0, 0.01);
}
// Settings of one stage: taken over as given, hardly different ones too, the other stages as they were
template <typename P, int N>
static void settings(mc::Run& r) {
  using Params = multirotor::controller::ControllerParams<P, N>;
  auto make = [](CtrlSpec s) { if (N != 4) s.alloc = wide(N); return ctrl_params<P, N>(s); };
  int from = r.choose(3, "settings in force"), stage = r.choose(6, "stage"), to = r.choose(3, "new settings");
  Params now = make(config(from)), next = make(config(to));
  auto n = [&](auto& x, const char* w) { x = (P)r.nearby(x, w); };
  auto v = [&](auto& x, const char* w) { for (int i = 0; i < 3; i++) n(x[i], w); };
  auto pid = [&](pid_controller::PIDParams<P>& q) {
    v(q.Kp_gains, "kp"); v(q.Ki_gains, "ki"); v(q.Kd_gains, "kd"); v(q.alpha, "alpha");
    if (q.antiwindup_cte.minCoeff() > 0) v(q.antiwindup_cte, "anti-windup limit");
    if (q.upper_output_saturation.minCoeff() > 0) { v(q.upper_output_saturation, "upper"); v(q.lower_output_saturation, "lower"); }
    if (r.deviate(2, "reset flag")) q.reset_integral_flag = !q.reset_integral_flag;
    if (r.deviate(2, "proportional flag")) q.proportional_saturation_flag = !q.proportional_saturation_flag;
    if (r.deviate(2, "no limits")) { q.upper_output_saturation.setZero(); q.lower_output_saturation.setZero(); }
    if (r.deviate(2, "limits")) { q.upper_output_saturation.setConstant(7); q.lower_output_saturation.setConstant(-6); }
  };
  if (stage == 0 || stage == 5) {
    auto& q = next.acro_controller_params;
    n(q.vehicle_mass, "mass"); v(q.gravity, "gravity");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n(q.kp_rot(i, j), "attitude gain");
  }
  if (stage == 1 || stage == 5) {
    auto& q = next.indi_controller_params;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n(q.inertia(i, j), "inertia");
    for (int i = 0; i < N; i++) n(q.mixer_matrix_inverse(i, 2 + i % 4), "allocation");
    pid(q.pid_params);
  }
  if (stage == 2 || stage == 5) pid(next.position_controller_params.pid_params);
  if (stage == 3 || stage == 5) pid(next.trajectory_controller_params.pid_params);
  if (stage == 4 || stage == 5) pid(next.velocity_controller_params.pid_params);
  Ctrl<P, N> c(now);
  if (stage == 0 || stage == 5) now.acro_controller_params = next.acro_controller_params;
  if (stage == 1 || stage == 5) now.indi_controller_params = next.indi_controller_params;
  if (stage == 2 || stage == 5) now.position_controller_params = next.position_controller_params;
  if (stage == 3 || stage == 5) now.trajectory_controller_params = next.trajectory_controller_params;
  if (stage == 4 || stage == 5) now.velocity_controller_params = next.velocity_controller_params;
  bool direct = stage != 5 && r.flag("through the stage");
  switch (stage) {
    case 0: if (direct) c.get_acro_controller().update_params(next.acro_controller_params); else c.update_acro_controller_params(next.acro_controller_params); break;
    case 1: if (direct) c.get_indi_controller().update_params(next.indi_controller_params); else c.update_indi_controller_params(next.indi_controller_params); break;
    case 2: if (direct) c.get_position_controller().update_params(next.position_controller_params); else c.update_position_controller_params(next.position_controller_params); break;
    case 3: if (direct) c.get_trajectory_controller().update_params(next.trajectory_controller_params); else c.update_trajectory_controller_params(next.trajectory_controller_params); break;
    case 4: if (direct) c.get_velocity_controller().update_params(next.velocity_controller_params); else c.update_velocity_controller_params(next.velocity_controller_params); break;
    default: c.update_params(next);
  }
  r.step();
  auto vec = [&](const auto& a, const auto& e, const char* w) {
    for (int i = 0; i < e.rows(); i++) for (int j = 0; j < e.cols(); j++) r.same(a(i, j), e(i, j), w);
  };
  auto one = [&](const auto& ctl, const pid_controller::PIDParams<P>& e, const char* w) {
    auto a = ctl.get_params();
    vec(a.Kp_gains, e.Kp_gains, w); vec(a.Ki_gains, e.Ki_gains, w); vec(a.Kd_gains, e.Kd_gains, w); vec(a.alpha, e.alpha, w); vec(a.antiwindup_cte, e.antiwindup_cte, w);
    vec(a.upper_output_saturation, e.upper_output_saturation, w); vec(a.lower_output_saturation, e.lower_output_saturation, w);
    r.require(a.reset_integral_flag == e.reset_integral_flag, w);
    r.require(a.proportional_saturation_flag == e.proportional_saturation_flag, w);
  };
  r.same(c.get_acro_controller_const().get_vehicle_mass(), now.acro_controller_params.vehicle_mass, "mass of the attitude stage");
  vec(c.get_acro_controller_const().get_gravity(), now.acro_controller_params.gravity, "gravity of the attitude stage");
  vec(c.get_acro_controller_const().get_kp_rot(), now.acro_controller_params.kp_rot, "gain of the attitude stage");
  vec(c.get_indi_controller_const().get_inertia(), now.indi_controller_params.inertia, "inertia of the rate stage");
  vec(c.get_indi_controller_const().get_mixer_matrix_inverse(), now.indi_controller_params.mixer_matrix_inverse, "allocation of the rate stage");
  one(c.get_indi_controller_const(), now.indi_controller_params.pid_params, "settings of the rate stage");
  one(c.get_position_controller_const(), now.position_controller_params.pid_params, "settings of the position stage");
  one(c.get_trajectory_controller_const(), now.trajectory_controller_params.pid_params, "settings of the trajectory stage");
  one(c.get_velocity_controller_const(), now.velocity_controller_params.pid_params, "settings of the velocity stage");
  Ctrl<P, N> d(now);
  const Feed& f = feeds()[0];
  EM<P> R = eq<P>(f.q).toRotationMatrix();
  for (int k = 0; k < 2; k++) {
    auto x = c.compute_position_control(e3<P>(f.p), R, e3<P>(f.v), e3<P>(f.w), e3<P>({1, -2.0 - k, 4}), (P)0.5, (P)0.01), y = d.compute_position_control(e3<P>(f.p), R, e3<P>(f.v), e3<P>(f.w), e3<P>({1, -2.0 - k, 4}), (P)0.5, (P)0.01);
    r.near_v(vn(x), vn(y), N, "stack with updated settings against a new one", sizeof(P) == 4 ? 2e-4 : 1e-9);
    x = c.compute_trajectory_control(e3<P>(f.p), e3<P>(f.v), R, e3<P>(f.w), e3<P>({1, 2, 3.0 + k}), e3<P>({0.1, 0.2, 0.3}), e3<P>({0, 0.1, 0.2}), (P)-1, (P)0.02);
    y = d.compute_trajectory_control(e3<P>(f.p), e3<P>(f.v), R, e3<P>(f.w), e3<P>({1, 2, 3.0 + k}), e3<P>({0.1, 0.2, 0.3}), e3<P>({0, 0.1, 0.2}), (P)-1, (P)0.02);
    r.step();
    r.near_v(vn(x), vn(y), N, "stack with updated settings against a new one", sizeof(P) == 4 ? 2e-4 : 1e-9);
    r.obs(vn(x)); r.state();
  }
}
// The conversions one by one, between complete calls, and the settings of single stages
template <typename P, int N>
static void stages(mc::Run& r, int depth) {
  auto cfg = [](int k) {
    CtrlSpec s = config(k);
    if (N != 4) s.alloc = wide(N);
    return ctrl_params<P, N>(s);
  };
  auto cur = cfg(r.choose(2, "gains"));
  Stack<P, N> s(cur);
  auto &ap = cur.acro_controller_params;
  auto &ip = cur.indi_controller_params;
  const Feed f = feeds()[r.choose(3, "feedback")];
  const auto other = cfg(2);
  for (int k = 0; k < depth; k++) {
    const double dt = k % 2 ? 0.02 : 0.01;
    EM<P> R = eq<P>(f.q).toRotationMatrix();
    bool full = false;
    switch (r.choose(15)) {
      case 0: s.v(r, v3(s.c.convert_position_to_linear_velocity(e3<P>(f.p), e3<P>({1, -2, 4}), (P)dt)), v3(s.pos.position_to_linear_velocity(e3<P>(f.p), e3<P>({1, -2, 4}), (P)dt)), "position conversion"); break;
      case 1: s.v(r, v3(s.c.convert_linear_velocity_to_linear_acceleration(e3<P>(f.v), e3<P>({0.4, 0.5, -0.6}), (P)dt)), v3(s.vel.linear_velocity_to_linear_acceleration(e3<P>(f.v), e3<P>({0.4, 0.5, -0.6}), (P)dt)), "velocity conversion"); break;
      case 2: s.v(r, v3(s.c.convert_trajectory_to_linear_acceleration(e3<P>(f.p), e3<P>(f.v), e3<P>({0.5, 0, 2}), e3<P>({0.1, -0.3, 0.4}), e3<P>({0.2, 0.5, -0.1}), (P)dt)),
                  v3(s.traj.trajectory_to_linear_acceleration(e3<P>(f.p), e3<P>(f.v), e3<P>({0.5, 0, 2}), e3<P>({0.1, -0.3, 0.4}), e3<P>({0.2, 0.5, -0.1}), (P)dt)), "trajectory conversion"); break;
      case 3: case 4: {
        V a = r.choose(2, "acceleration") ? V{-0.3, 0.2, -20} : V{1, -0.5, 0.7};
        auto o = s.c.convert_linear_acceleration_to_acro(e3<P>(a), R, (P)0.4, (P)dt);
        Setpoints q = s.last;
        q.a = a; q.thrust = o.first; q.w = v3(o.second);
        s.attitude_stage(r, f, 0.4, q);
        break;
      }
      case 5: r.near_v(vn(s.c.convert_acro_to_motor_angular_velocity(e3<P>(f.w), (P)11, e3<P>({0.3, -0.5, 0.2}), (P)dt)), vn(s.indi.acro_to_motor_angular_velocity(e3<P>(f.w), (P)11, e3<P>({0.3, -0.5, 0.2}), (P)dt)), N, "rate conversion", s.tol()); break;
      case 6: s.position_call(r, f, {1, -2, 4}, 0.5, dt); full = true; break;
      case 7: s.trajectory_call(r, f, {0.5, 0, 2}, {0.1, -0.3, 0.4}, {0.2, 0.5, -0.1}, 2.0, dt); full = true; break;
      case 8: s.velocity_call(r, f, {0.4, 0.5, -0.6}, -1.5, dt); full = true; break;
      case 9: ap.vehicle_mass = (P)2.3; s.c.get_acro_controller().update_vehicle_mass(ap.vehicle_mass); s.acro.update_params(ap); break;
      case 10: ap.gravity = e3<P>({0.3, -0.1, -3.7}); s.c.get_acro_controller().update_gravity(ap.gravity); s.acro.update_params(ap); break;
      case 11: ap.kp_rot = other.acro_controller_params.kp_rot; s.c.get_acro_controller().update_kp_rot(ap.kp_rot); s.acro.update_params(ap); break;
      case 12: ip.inertia = em<P>(diag(0.02, 0.05, 0.03)); s.c.get_indi_controller().update_inertia(ip.inertia); s.indi.update_params(ip); break;
      case 13: ip.mixer_matrix_inverse = other.indi_controller_params.mixer_matrix_inverse * (P)1.5; s.c.get_indi_controller().update_mixer_matrix_inverse(ip.mixer_matrix_inverse); s.indi.update_params(ip); break;
      default: s.c.get_position_controller().reset_controller(); s.pos.reset_controller(); break;
    }
    if (!full) r.step();
    if (!r.novel()) continue;
    Setpoints q = reported(s.c);
    if (!full) {
      s.keep(r, q, true, true, true);
      r.same(q.thrust, s.last.thrust, "thrust set-point after a conversion"); r.same_v(q.w, s.last.w, 3, "body rate set-point after a conversion"); r.same_v(q.m, s.last.m, N, "motor set-point after a conversion");
    }
    // settings and results of every stage are those of the stage on its own
    const auto& ac = s.c.get_acro_controller_const();
    const auto& in = s.c.get_indi_controller_const();
    r.same(ac.get_vehicle_mass(), ap.vehicle_mass, "mass"); r.same_v(v3(ac.get_gravity()), v3(ap.gravity), 3, "gravity");
    r.require(ac.get_kp_rot() == ap.kp_rot && in.get_inertia() == ip.inertia && in.get_mixer_matrix_inverse() == ip.mixer_matrix_inverse, "settings of a stage");
    s.v(r, v3(in.get_desired_angular_acceleration()), v3(s.indi.get_desired_angular_acceleration()), "angular acceleration of the rate stage");
    s.v(r, v3(in.get_desired_thrust()), v3(s.indi.get_desired_thrust()), "thrust of the rate stage"); s.v(r, v3(in.get_desired_torque()), v3(s.indi.get_desired_torque()), "torque of the rate stage");
    s.v(r, v3(in.get_angular_velocity_error()), v3(s.indi.get_angular_velocity_error()), "error of the rate stage");
    s.v(r, v3(s.c.get_position_controller_const().get_desired_linear_velocity()), v3(s.pos.get_desired_linear_velocity()), "result of the position stage");
    s.v(r, v3(s.c.get_velocity_controller_const().get_desired_linear_acceleration()), v3(s.vel.get_desired_linear_acceleration()), "result of the velocity stage");
    s.v(r, v3(s.c.get_trajectory_controller_const().get_velocity_error()), v3(s.traj.get_velocity_error()), "velocity error of the trajectory stage");
    for (double x : ctrl_view(s.c)) r.obs(x);
    r.state();
  }
  s.position_call(r, f, {0, 0, 1}, 0, 0.01);
  s.trajectory_call(r, f, {0, 0, 1}, {1, 0, 0}, {0, 0, 0.5}, 0, 0.01);
}
// Through the simulator: the references and the vehicle state reach the stack
static void simulator(mc::Run& r, int depth) {
  CtrlSpec c = busy_ctrl(standard());
  SimSpec sp = spec(standard(), c);
  sp.start = flight(1 + r.choose(2, "start"), 4);
  Sim<> s(sim_params(sp));
  Ctrl<double, 4> t(ctrl_params(c));
  s.arm();
  set_all_refs(s, r.choose(3, "references"));
  for (int k = 0; k < depth; k++) {
    int o = r.choose(8);
    if (o < 6) {
      s.set_control_mode(cmode(o));
      set_all_refs(s, k % 3);
    } else if (o == 6) {
      s.update_dynamics(0.01);
    } else {
      s.disarm(); s.update_controller(0.01); s.arm();
      set_all_refs(s, 1);
    }
    Refs q = refs(s);
    ref::State x = get<double, 4>(s.get_state());
    auto R = eq<double>(x.q).toRotationMatrix();
    auto before = ctrl_view(s.get_controller_const());
    s.update_controller(0.01);
    EN<double, 4> m = EN<double, 4>::Zero();
    switch (s.get_control_mode()) {
      case multirotor::MOTOR_W: m = en<double, 4>(q.motors); break;
      case multirotor::ACRO: m = t.compute_acro_control(e3(x.w), q.thrust, e3(q.rate), 0.01); break;
      case multirotor::TRAJECTORY: m = t.compute_trajectory_control(e3(x.p), e3(x.v), R, e3(x.w), e3(q.pos), e3(q.vel), e3(q.acc), q.yaw, 0.01); break;
      case multirotor::VELOCITY: m = t.compute_velocity_control(e3(x.v), R, e3(x.w), e3(q.vel), q.yaw, 0.01); break;
      default: m = t.compute_position_control(e3(x.p), R, e3(x.v), e3(x.w), e3(q.pos), q.yaw, 0.01); break;
    }
    r.step();
    if (!r.novel()) continue;
    r.say([&] { return std::string(mode_name[q.mode]) + " command " + str(refs(s).act); });
    auto a = ctrl_view(s.get_controller_const()), e = ctrl_view(t);
    for (size_t i = 0; i < e.size(); i++) r.near(a[i], e[i], "set-points and terms inside the simulator", 1e-9);
    r.near_v(refs(s).act, vn(m), 4, "motor command", 1e-9);
    obs_refs(r, refs(s)); r.state();
  }
}
// Against the reference cascade: every reported set-point, for all combinations of feedback and set-points
static void against_reference(mc::Run& r, int depth) {
  static const std::vector<V> ps = {{0, 0, 0}, {-7, 3, 1}}, vs = {{0, 0, 0}, {1.5, -0.7, 0.4}}, as = {{0, 0, 0}, {-2, 4, -1}}, ws = {{0, 0, 0}, {0.4, -0.3, 0.2}};
  static const double yaws[] = {0, -2.2};
  CtrlSpec s = config(r.choose(3, "gains"));
  Ctrl<double, 4> c(ctrl_params<double, 4>(s));
  ref::Cascade k;
  set_cascade(k, s);
  for (int i = 0; i < depth; i++) {
    int o = r.choose(5, "call");
    const Feed& f = feeds()[r.choose(3, "feedback")];
    EM<double> R = eq<double>(f.q).toRotationMatrix();
    ref::M M = ref::qmat(f.q);
    double yaw = o != 0 ? yaws[r.choose(2, "yaw")] : 0, dt = i % 2 ? 0.03 : 0.01;
    EN<double, 4> m;
    std::vector<double> e;
    k.margin = 1e9;
    switch (o) {
      case 0: { V w = r.pick(ws, "rates"); m = c.compute_acro_control(e3(f.w), 11 + i, e3(w), dt); e = k.acro(f.w, 11 + i, w, dt); break; }
      case 1: { V a = r.pick(as, "acceleration"); m = c.compute_acceleration_control(R, e3(f.w), e3(a), yaw, dt); e = k.accel(M, f.w, a, yaw, dt); break; }
      case 2: { V v = r.pick(vs, "velocity"); m = c.compute_velocity_control(e3(f.v), R, e3(f.w), e3(v), yaw, dt); e = k.velocity(f.v, M, f.w, v, yaw, dt); break; }
      case 3: { V p = r.pick(ps, "position"); m = c.compute_position_control(e3(f.p), R, e3(f.v), e3(f.w), e3(p), yaw, dt); e = k.position(f.p, M, f.v, f.w, p, yaw, dt); break; }
      default: {
        V p = r.pick(ps, "position"), v = r.pick(vs, "velocity"), a = r.pick(as, "acceleration");
        m = c.compute_trajectory_control(e3(f.p), e3(f.v), R, e3(f.w), e3(p), e3(v), e3(a), yaw, dt);
        e = k.trajectory(f.p, f.v, M, f.w, p, v, a, yaw, dt);
      }
    }
    r.step();
    if (k.margin < 1e-6) return;  // too close to the thrust cut-off to tell the side
    if (!r.novel()) continue;
    Setpoints q = reported(c);
    r.near_v(q.p, k.sp_pos, 3, "reported position set-point"); r.near_v(q.v, k.sp_vel, 3, "reported velocity set-point"); r.near_v(q.a, k.sp_acc, 3, "reported acceleration set-point");
    r.near_v(q.w, k.sp_rate, 3, "reported body rate set-point"); r.near(q.thrust, k.sp_thrust, "reported thrust");
    for (int j = 0; j < 4; j++) r.near(ref::ssq(q.m[j]), ref::ssq(e[j]), "square of the reported motor speed", 1e-8), r.same(q.m[j], m[j], "reported motor speed");
    r.obs(q.p); r.obs(q.v); r.obs(q.a); r.obs(q.w); r.obs(q.thrust);
    r.state();
  }
}
// usual values everywhere except in up to `budget` numbers, which take every size and sign
template <typename P, int N>
static void unusual(mc::Run& r) {
  static const double dts[] = {0.01, 1e-5, 0.002, 0.1, 3};
  CtrlSpec c = config(r.choose(2, "gains"));
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  c.mass = std::max(1e-3, std::fabs(r.wide(c.mass, 1e3, "mass")));
  c.g[2] = r.wide(c.g[2], 1e3, "gravity"); c.g[0] = r.wide(c.g[0], 1e3, "gravity");
  for (auto* p : {&c.rate, &c.pos, &c.vel, &c.traj}) {
    p->kp[1] = r.wide(p->kp[1], 1e3, "kp"); p->ki[2] = r.wide(p->ki[2], 1e3, "ki"); p->kd[0] = r.wide(p->kd[0], 1e3, "kd");
  }
  if (N != 4) c.alloc = wide(N);
  int o = r.choose(5, "call");
  Stack<P, N> s(ctrl_params<P, N>(c));
  Feed f = feeds()[r.choose(2, "feedback")];
  f.p = v(f.p, 1e4, "position"); f.v = v(f.v, 1e4, "velocity"); f.w = v(f.w, 1e3, "rates");
  double yaw = r.wide(0.5, 1e3, "yaw");
  V p{1, -2, 4}, q{0.4, 0.5, -0.6}, a{0.2, 0.5, -0.1}, w{0.3, -0.5, 0.2};
  double t = 11;
  if (o == 0 || o == 2) p = v(p, 1e4, "position set-point");
  if (o == 1 || o == 2) q = v(q, 1e4, "velocity set-point");
  if (o == 4 || o == 2) a = v(a, 1e4, "acceleration set-point");
  if (o == 3) { w = v(w, 1e3, "rate set-point"); t = r.wide(t, 1e4, "thrust set-point"); }
  for (int k = 0; k < 2; k++) {
    double dt = dts[r.deviate(5)];
    switch (o) {
      case 0: s.position_call(r, f, p, yaw, dt); break;
      case 1: s.velocity_call(r, f, q, yaw, dt); break;
      case 2: s.trajectory_call(r, f, p, q, a, yaw, dt); break;
      case 3: s.acro_call(r, f, t, w, dt); break;
      case 4: s.accel_call(r, f, a, yaw, dt); break;
    }
  }
}
// nothing changes with the number of calls
static void endurance(mc::Run& r, int len) {
  Stack<double, 4> s(ctrl_params<double, 4>(config(r.choose(3, "gains"))));
  int main = r.choose(5, "main call"), other = r.choose(6, "now and then");
  for (int k = 0; k < len; k++) {
    int o = k % 97 == 96 && other < 5 ? other : main;
    const Feed& f = feeds()[k / 300 % 3];
    double u = 0.01 * (k % 50), yaw = 0.1 * (k % 30) - 1.5;
    switch (o) {
      case 0: s.position_call(r, f, {1 + u, -2, 4 - u}, yaw, 0.01); break;
      case 1: s.velocity_call(r, f, {0.4, 0.5 - u, -0.6}, yaw, 0.01); break;
      case 2: s.trajectory_call(r, f, {0.5 + u, 0, 2}, {0.1, -0.3 + u, 0.4}, {0.2, 0.5, -0.1}, yaw, 0.01); break;
      case 3: s.acro_call(r, f, 11 + u, {0.3, -0.5, 0.2 + u}, 0.01); break;
      case 4: s.accel_call(r, f, {1, -0.5 - u, 0.7}, yaw, 0.02); break;
    }
    if (k % 2500 == 2499) s.reset(r);
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "2 gain sets x 3 feedbacks x all sequences of 11 calls and parameter changes of every stage, length ";
    ex.explore("calls", b + (t ? "5" : "4"), 0, [t](mc::Run& r) { calls<double, 4>(r, t ? 5 : 4); });
    ex.explore("calls6", b + "3, six rotors", 0, [](mc::Run& r) { calls<double, 6>(r, 3); });
    ex.explore("calls_f", b + "3, single precision", 0, [](mc::Run& r) { calls<float, 4>(r, 3); });
    b = "2 gain sets x 3 feedbacks x all sequences of 6 single conversions, 3 complete calls, 5 settings of single stages and a reset, length ";
    ex.explore("stages", b + (t ? "5" : "4"), 0, [t](mc::Run& r) { stages<double, 4>(r, t ? 5 : 4); });
    ex.explore("stages_6f", b + "2, six rotors, single precision", 0, [](mc::Run& r) { stages<float, 6>(r, 2); });
    ex.explore("against_reference", "3 gain sets x all sequences of calls with all combinations of set-points and feedback, length " + std::string(t ? "3" : "2"), 0, [t](mc::Run& r) { against_reference(r, t ? 3 : 2); });
    ex.explore("settings", "3 x 3 settings x 6 stages, any " + std::string(t ? "2" : "1") + " numbers or flags different", t ? 2 : 1, settings<double, 4>);
    ex.explore("settings_6f", "the same, six rotors, single precision, any one", 1, settings<float, 6>);
    int bu = t ? 3 : 2;
    ex.explore("unusual", "5 calls x gains x feedback, any " + std::to_string(bu) + " numbers of unusual sign or size", bu, unusual<double, 4>);
    ex.explore("unusual_6", "the same, six rotors, single precision, any one number", 1, unusual<float, 6>);
    ex.explore("endurance", "18 x 5 patterns of 6000 calls", 0, [](mc::Run& r) { endurance(r, 6000); });
    ex.explore("simulator", "starts x references x all sequences of 8 operations", 0, [t](mc::Run& r) { simulator(r, t ? 6 : 5); });
  });
}
