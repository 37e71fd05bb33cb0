// C28: shifting the world or turning it by quarter turns shifts or turns the flight.
#include "sim.hpp"
using namespace qm;
using ref::V;
struct Move {
  V d{};
  int turns = 0;
  V vec(const V& v) const {
    switch (((turns % 4) + 4) % 4) {
      case 1: return {-v[1], v[0], v[2]};
      case 2: return {-v[0], -v[1], v[2]};
      case 3: return {v[1], -v[0], v[2]};
      default: return v;
    }
  }
  V pos(const V& p) const { return vec(p) + d; }
  double yaw(double y) const { return y + turns * M_PI / 2; }
  ref::Q att(const ref::Q& q) const { return turns ? ref::qmul(ref::axis_angle({0, 0, 1}, turns * M_PI / 2), q) : q; }
  ref::State state(ref::State s) const {
    s.p = pos(s.p); s.v = vec(s.v); s.q = att(s.q); s.a = vec(s.a); s.force = vec(s.force);
    return s;
  }
};
static void mode(Sim<>& s, const Move& t, int k) {
  using namespace multirotor;
  auto rate = YawControlMode::RATE;
  auto angle = YawControlMode::ANGLE;
  switch (k) {
    case 1: s.set_control_mode(POSITION, angle); s.set_reference_position(e3(t.pos({1, -2, 3}))); s.set_reference_yaw_angle(t.yaw(0.7)); break;
    case 2: s.set_control_mode(ACRO, angle); s.set_reference_acro(11, e3<double>({0.6, -0.4, 0.5})); break;
    case 3: s.set_control_mode(TRAJECTORY, rate); s.set_reference_trajectory(e3(t.pos({1, 1, 3})), e3(t.vec({0.5, 0, 0.1})), e3(t.vec({0, 0.2, 0}))); s.set_reference_yaw_rate(0.4); break;
    case 4: s.set_control_mode(VELOCITY, rate); s.set_reference_velocity(e3(t.vec({1, 2, -0.5}))); s.set_reference_yaw_rate(-1); break;
    case 5: s.set_control_mode(HOVER, angle); break;
    case 6: s.set_control_mode(MOTOR_W, angle); s.set_refence_motors_angular_velocity(pattern(1050, 30)); break;
    case 7: s.set_control_mode(VELOCITY, angle); s.set_reference_velocity(e3(t.vec({-3, 0.5, 1}))); s.set_reference_yaw_angle(t.yaw(-2)); break;
    case 8: s.set_control_mode(HOVER, rate); s.set_reference_yaw_rate(0.8); break;
    case 9: s.disarm(); break;
    default: break;
  }
}
static void run(mc::Run& r, int len, bool turned, bool floor, const ref::Vehicle& body, const CtrlSpec& c, double tol) {
  Move t;
  if (turned) t.turns = r.pick(std::vector<int>{1, 2, 3, -1, 4, -6}, "quarter turns");
  if (!turned || r.flag("also shifted")) t.d = r.pick(std::vector<V>{{3, -7, 0}, {0, 0, 12.5}, {100, 50, -20}, {-0.1, 0.2, 0.3}, {20000, -31000, 4000}}, "shift");
  SimSpec s = spec(body, c);
  s.start = flight(r.choose(6, "start"), 4);
  if (floor && r.flag("on the floor")) { s.start.p[2] = 0.3; s.start.v = s.start.w = V{}; s.start.q = ref::rpy(0, 0, 0.4); }
  s.odo_q = s.start.q;
  SimSpec m = s;
  m.start = t.state(s.start);
  m.odo_q = t.att(s.odo_q);
  Sim<> a(sim_params(s)), b(sim_params(m));
  if (floor) { a.enable_floor_collision(0.3); b.enable_floor_collision(0.3 + t.d[2]); }
  a.arm(); b.arm();
  a.set_reference_position(e3<double>({0, 0, 1})); b.set_reference_position(e3(t.pos({0, 0, 1})));
  a.set_reference_yaw_angle(0.1); b.set_reference_yaw_angle(t.yaw(0.1));
  int k0 = r.choose(8, "first mode") + 1;
  mode(a, Move{}, k0); mode(b, t, k0);
  double dt = 0.01;
  for (int k = 0; k < len; k++) {
    int d = r.deviate(10);
    mode(a, Move{}, d); mode(b, t, d);
    for (auto* x : {&a, &b}) { x->update_controller(dt); x->update_dynamics(dt); x->update_imu(dt); x->update_inertial_odometry(dt); }
    r.step();
    if (!r.novel()) continue;
    ref::State x = get<double, 4>(a.get_state()), y = get<double, 4>(b.get_state()), e = t.state(x);
    r.say([&] { return "turned " + std::to_string(t.turns) + " shifted " + str(t.d) + ": p " + str(y.p) + " expected " + str(e.p) + " v " + str(y.v) + " expected " + str(e.v) + " w " + str(y.w) + " expected " + str(e.w); });
    r.near_v(y.p, e.p, 3, "position", tol, 10); r.near_v(y.v, e.v, 3, "velocity", tol);
    near_q(r, y.q, e.q, "attitude", tol); r.near_v(y.w, e.w, 3, "body rates", tol);
    r.near_v(y.a, e.a, 3, "acceleration", tol * 10); r.near_v(y.dw, e.dw, 3, "angular acceleration", tol * 10);
    r.near_v(y.force, e.force, 3, "force", tol * 10); r.near_v(y.torque, e.torque, 3, "torque", tol);
    r.near_v(y.m, e.m, 4, "motor speed", tol * 10); r.near_v(y.dm, e.dm, 4, "motor acceleration", tol * 10, 1e3);
    Refs p = refs(a), q = refs(b);
    r.near_v(q.act, p.act, 4, "motor command", tol * 10, 1e2);
    r.near_v(q.vel, t.vec(p.vel), 3, "velocity reference", tol); r.near_v(q.acc, t.vec(p.acc), 3, "acceleration reference", tol);
    r.near(std::cos(q.yaw), std::cos(t.yaw(p.yaw)), "yaw reference", tol); r.near(std::sin(q.yaw), std::sin(t.yaw(p.yaw)), "yaw reference", tol);
    r.near_v(q.pos, t.pos(p.pos), 3, "position reference", tol, 10);
    auto &ca = a.get_controller_const(), &cb = b.get_controller_const();
    r.near_v(v3(cb.get_desired_linear_velocity()), t.vec(v3(ca.get_desired_linear_velocity())), 3, "desired velocity", tol);
    r.near_v(v3(cb.get_desired_linear_acceleration()), t.vec(v3(ca.get_desired_linear_acceleration())), 3, "desired acceleration", tol * 10);
    r.near(cb.get_desired_thrust(), ca.get_desired_thrust(), "desired thrust", tol * 10);
    if (p.armed && (p.mode == multirotor::POSITION || p.mode == multirotor::HOVER || p.mode == multirotor::TRAJECTORY)) r.near_v(v3(cb.get_desired_position()), t.pos(v3(ca.get_desired_position())), 3, "desired position", tol, 10);
    Sensors u = sensors(a), w = sensors(b);
    r.near_v(w.gyro, u.gyro, 3, "gyroscope", tol); r.near_v(w.accel, u.accel, 3, "accelerometer", tol * 10);
    r.near_v(w.v, t.vec(u.v), 3, "odometry velocity", tol); r.near_v(w.p, t.vec(u.p), 3, "odometry position", tol); near_q(r, w.q, t.att(u.q), "odometry attitude", tol);
    obs_state(r, x); obs_state(r, y); r.state();
  }
}
// The dynamics alone, with external forces and noise free, one step from everywhere
static void single(mc::Run& r) {
  ref::Vehicle body = r.choose(2, "vehicle") ? heavy() : crooked();
  body.g = {0, 0, -9.0};
  Move t;
  t.turns = r.choose(4, "quarter turns");
  t.d = r.pick(std::vector<V>{{0, 0, 0}, {3, -7, 1}, {1000, 2000, -500}}, "shift");
  ref::State s = flight(r.choose(6, "start"), 4);
  s.v = r.pick(std::vector<V>{{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {3, -4, 5}, {-3, -4, -5}}, "velocity");
  s.q = r.pick(attitudes(), "attitude");
  V ext = r.pick(std::vector<V>{{0, 0, 0}, {2, 0, 0}, {0, -3, 1}}, "external force");
  SimSpec a = spec(body, standard_ctrl(standard())), b = a;
  a.start = s;
  b.start = t.state(s);
  multirotor::dynamics::Dynamics<double, 4> x(dyn_params(a)), y(dyn_params(b));
  for (int k = 0; k < 3; k++) {
    x.process_euler_explicit(pattern(1000, 90), 0.008, e3(ext), k == 1);
    y.process_euler_explicit(pattern(1000, 90), 0.008, e3(t.vec(ext)), k == 1);
    r.step();
    ref::State u = get<double, 4>(y.get_state()), e = t.state(get<double, 4>(x.get_state()));
    r.near_v(u.p, e.p, 3, "position", 1e-10, 10);
    u.p = e.p;
    near_state(r, u, e, 1e-9);
    obs_state(r, u); r.state();
  }
}
// unusual numbers anywhere
static void unusual(mc::Run& r) {
  using namespace multirotor;
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  ref::Vehicle body = standard();
  SimSpec s = spec(body, standard_ctrl(body));
  Move t;
  t.turns = r.choose(4, "quarter turns");
  int k = r.choose(6, "mode"), y = r.choose(2, "yaw mode");
  t.d = v({3, -7, 2}, 1e4, "shift");
  s.start = flight(1, 4);
  s.start.p = v({0.5, -1.5, 2.5}, 1e4, "position");
  s.start.v = v({0.3, -0.4, 0.2}, 100, "velocity");
  s.start.w = v({0.1, 0.2, -0.3}, 20, "rates");
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 1.4, "pitch");
  s.start.q = ref::rpy(roll, pitch, r.wide(0.8, 10, "yaw"));
  bool floor = r.deviate(2) == 1;
  SimSpec m = s;
  m.start = t.state(s.start);
  Sim<> a(sim_params(s)), b(sim_params(m));
  if (floor) { double h = s.start.p[2] - 0.001; a.enable_floor_collision(h); b.enable_floor_collision(h + t.d[2]); }
  a.arm(); b.arm();
  V p = v({1.5, -1, 3}, 1e4, "position reference"), q = v({0.6, 0.1, -0.5}, 1e3, "velocity reference"), c = v({0.2, -0.4, 0.7}, 100, "acceleration reference");
  double ya = r.wide(1.1, 100, "yaw reference"), yr = r.wide(0.4, 100, "yaw rate reference");
  for (int i = 0; i < 2; i++) {
    Sim<>& z = i ? b : a;
    Move u = i ? t : Move{};
    z.set_control_mode(cmode(k), ymode(y));
    if (k != 0) z.set_reference_trajectory(e3(u.pos(p)), e3(u.vec(q)), e3(u.vec(c)));
    z.set_reference_acro(11, e3<double>({0.6, -0.4, 0.5}));
    z.set_refence_motors_angular_velocity(pattern(1050, 30));
    if (y) z.set_reference_yaw_rate(yr); else z.set_reference_yaw_angle(u.yaw(ya));
  }
  for (int j = 0; j < 3; j++) {
    for (auto* z : {&a, &b}) { z->update_controller(0.01); z->update_dynamics(0.01); }
    r.step();
    ref::State g = get<double, 4>(a.get_state()), h = get<double, 4>(b.get_state()), e = t.state(g);
    auto &ca = a.get_controller_const(), &cb = b.get_controller_const();
    double th = ca.get_desired_thrust();
    r.say([&] { return "turned " + std::to_string(t.turns) + " shifted " + str(t.d) + ": p " + str(h.p) + " expected " + str(e.p) + " v " + str(h.v) + " expected " + str(e.v) + " w " + str(h.w) + " expected " + str(e.w) + " thrust " + mc::num(cb.get_desired_thrust()) + " expected " + mc::num(th); });
    // close to the thrust cut-off, or with thrust along the heading, rounding decides
    V f = v3(ca.get_desired_linear_acceleration()) + V{0, 0, 9.81};
    double yw = a.get_reference_yaw();
    if (k != 1 && k != 2 && (ref::norm(f) < 1e-3 || ref::norm(ref::cross(ref::unit(f), V{std::cos(yw), std::sin(yw), 0})) < 1e-2)) return;
    if (k != 1 && k != 2 && std::fabs(ref::dot(ref::unit(f), ref::unit(ref::rot(g.q, {0, 0, 1})))) < 1e-3) return;
    r.near_v(h.p, e.p, 3, "position", 1e-7, 10); r.near_v(h.v, e.v, 3, "velocity", 1e-7);
    near_q(r, h.q, e.q, "attitude", 1e-7); r.near_v(h.w, e.w, 3, "body rates", 1e-6);
    r.near_v(h.a, e.a, 3, "acceleration", 1e-6); r.near_v(h.force, e.force, 3, "force", 1e-6);
    Refs x = refs(a), z = refs(b);
    r.near_v(z.pos, t.pos(x.pos), 3, "position reference", 1e-7, 10); r.near_v(z.vel, t.vec(x.vel), 3, "velocity reference", 1e-7); r.near_v(z.acc, t.vec(x.acc), 3, "acceleration reference", 1e-7);
    if (k == 0 || k == 3 || k == 5) r.near_v(v3(cb.get_desired_position()), t.pos(v3(ca.get_desired_position())), 3, "desired position", 1e-7, 10);
    if (k != 1 && k != 2) r.near_v(v3(cb.get_desired_linear_velocity()), t.vec(v3(ca.get_desired_linear_velocity())), 3, "desired velocity", 1e-7);
    r.near(cb.get_desired_thrust(), th, "desired thrust", 1e-6);
    obs_state(r, g); obs_state(r, h); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    int d = t ? 2 : 1, len = t ? 40 : 40;
    std::string b = "turns/shifts x 6 starts x 8 modes, flights with mode changes at any moment";
    ref::Vehicle cr = crooked();
    cr.g = {0, 0, -9.81};
    for (auto& x : cr.rotors) { x.lo = 0; x.hi = 2500; x.kf *= 2; }
    CtrlSpec cc = standard_ctrl(cr);
    cc.vel.kp = {2, 2, 3}; cc.vel.ki = {0.5, 0.5, 0.2}; cc.vel.kd = {0.1, 0.1, 0}; cc.vel.aw = {1, 1, 1}; cc.vel.alpha = {0.5, 0.5, 1};
    CtrlSpec sc = standard_ctrl(standard());
    ex.explore("shift", b, d, [=](mc::Run& r) { run(r, len, false, false, standard(), sc, 1e-7); });
    ex.explore("turn", b, d, [=](mc::Run& r) { run(r, len / 2, true, false, standard(), sc, 1e-7); });
    ex.explore("turn_crooked", b + ", crooked vehicle", 1, [=](mc::Run& r) { run(r, len / 2, true, false, cr, cc, 1e-7); });
    ex.explore("floor", b + ", with a floor", 1, [=](mc::Run& r) { run(r, len / 2, false, true, standard(), sc, 1e-7); });
    ex.explore("floor_turn", b + ", with a floor", t ? 1 : 0, [=](mc::Run& r) { run(r, len, true, true, standard(), sc, 1e-7); });
    ex.explore("unusual", "4 turns x 12 modes, any " + std::string("2") + " numbers of state, shift and references unusual", 2, unusual);
    ex.explore("single", "2 vehicles x 4 turns x 3 shifts x 6 starts x 5 velocities x 8 attitudes x 3 forces", 0, single);
  });
}
