// C24: yaw rate mode.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P>
static void judge(mc::Run& r, Sim<P, 4>& s, const CtrlSpec& c, double dt) {
  Refs b = refs<P, 4>(s);
  ref::State x = get<P, 4>(s.get_state());
  s.update_controller((P)dt);
  r.step();
  if (!r.novel()) return;
  Refs a = refs<P, 4>(s);
  double kp = (P)c.kp_rot[2][2], yaw = ref::yaw_of(x.q);
  const double tol = sizeof(P) == 4 ? 1e-5 : 1e-11;
  r.say([&] { return std::string(b.armed ? "armed " : "disarmed ") + mode_name[b.mode] + (b.ymode == (int)multirotor::YawControlMode::RATE ? " yaw rate" : " yaw angle") + ", yaw " + mc::num(yaw) + " rate reference " + mc::num(b.yaw_rate) + " gain " + mc::num(kp) + ": yaw reference " + mc::num(b.yaw) + " -> " + mc::num(a.yaw); });
  if (b.armed && b.ymode == (int)multirotor::YawControlMode::RATE) r.near(a.yaw, kp == 0 ? yaw : yaw + b.yaw_rate / kp, "yaw reference in yaw rate mode", tol);
  else r.same(a.yaw, b.yaw, "yaw reference must not change");
  Refs e = b;
  e.yaw = a.yaw;
  same_refs(r, a, e, false);
  same_state(r, get<P, 4>(s.get_state()), x);
  r.obs(a.yaw); r.obs(a.yaw_rate); r.obs_tag(b.mode * 8 + b.ymode * 2 + b.armed); obs_state(r, x); r.state();
}
// every mode x gain x attitude x references
template <typename P>
static void grid(mc::Run& r) {
  CtrlSpec c = r.flag("all gains different") ? busy_ctrl(standard()) : standard_ctrl(standard());
  c.kp_rot[2][2] = r.pick(std::vector<double>{8, 0, 0.5, 100, -3}, "yaw gain");
  SimSpec s = spec(standard(), c);
  static const std::vector<double> yaws = {0, 0.4, -0.4, 1.5, -1.6, 3.1, -3.1, 2.4, -2.4};
  static const std::vector<double> tilt = {0, 0.5, -1.2, 2.7};
  s.start.q = ref::rpy(r.pick(tilt, "roll"), r.pick(std::vector<double>{0, -0.6, 1.3}, "pitch"), r.pick(yaws, "yaw"));
  s.start.p = {1, 2, 3};
  s.start.m.assign(4, 1100);
  if (r.flag("negative quaternion")) s.start.q = {-s.start.q.w, -s.start.q.x, -s.start.q.y, -s.start.q.z};
  Sim<P, 4> m(sim_params<P, 4>(s));
  if (r.flag("armed")) m.arm();
  m.set_control_mode(cmode(r.choose(6, "mode")), ymode(r.choose(2, "yaw mode")));
  m.set_reference_position(e3<P>({1, 2, 3}));
  m.set_reference_yaw_angle((P)r.pick(std::vector<double>{0.7, -9}, "yaw reference"));
  m.set_reference_yaw_rate((P)r.pick(std::vector<double>{0.9, 0, -2.5, 60}, "yaw rate reference"));
  judge(r, m, c, 0.01);
  m.update_dynamics((P)0.01);
  judge(r, m, c, 0.01);
}
// all sequences of operations
template <typename P>
static void calls(mc::Run& r, int depth) {
  CtrlSpec c = standard_ctrl(standard());
  SimSpec s = spec(standard(), c);
  s.start = flight(r.choose(3, "start"), 4);
  Sim<P, 4> m(sim_params<P, 4>(s));
  if (r.flag("armed")) m.arm();
  for (int k = 0; k < depth; k++) {
    Refs b = refs<P, 4>(m);
    bool keep = false;
    switch (r.choose(12)) {
      case 0: judge(r, m, c, 0.01); break;
      case 1: m.update_dynamics((P)0.05); keep = true; break;
      case 2: m.set_reference_yaw_rate((P)1.3); keep = true; break;
      case 3: m.set_reference_yaw_angle((P)-0.8); break;
      case 4: m.set_control_mode(multirotor::POSITION, multirotor::YawControlMode::RATE); break;
      case 5: m.set_control_mode(multirotor::ACRO, multirotor::YawControlMode::RATE); break;
      case 6: m.set_control_mode(multirotor::VELOCITY, multirotor::YawControlMode::ANGLE); break;
      case 7: m.arm(); keep = true; break;
      case 8: m.disarm(); keep = true; break;
      case 9: m.update_imu((P)0.01); m.update_inertial_odometry((P)0.01); keep = true; break;
      case 10: c = c.kp_rot[2][2] == 8 ? busy_ctrl(standard()) : standard_ctrl(standard()); c.kp_rot[2][2] += c.rate.kp[1] == 7 ? 3 : 0; m.set_controller_params(ctrl_params<P, 4>(c)); keep = true; break;
      case 11: c.kp_rot[2][2] = 0; m.get_controller().update_acro_controller_params(ctrl_params<P, 4>(c).acro_controller_params); keep = true; break;
    }
    if (keep) { r.same(m.get_reference_yaw(), b.yaw, "yaw reference must not change"); r.step(); }
  }
  judge(r, m, c, 0.005);
  judge(r, m, c, 0);
}
// the gain set by every route, before and after updates
template <typename P>
static void tuned(mc::Run& r, int depth) {
  CtrlSpec c = r.flag("all gains different") ? busy_ctrl(standard()) : standard_ctrl(standard());
  SimSpec s = spec(standard(), c);
  s.start = flight(1 + r.choose(2, "start"), 4);
  Sim<P, 4> m(sim_params<P, 4>(s));
  m.arm();
  m.set_control_mode(cmode(r.choose(6, "mode")), multirotor::YawControlMode::RATE);
  m.set_reference_yaw_rate((P)1.3);
  m.set_refence_motors_angular_velocity(pattern<P>(1130, 2));
  auto& ctrl = m.get_controller();
  auto& acro = ctrl.get_acro_controller();
  const std::vector<double> gains = {3, 0, 11, -2};
  judge(r, m, c, 0.01);
  for (int k = 0; k < depth; k++) {
    int op = r.choose(11);
    if (op >= 1 && op <= 9) c.kp_rot[2][2] = c.kp_rot[2][2] == gains[(op + k) % 4] ? 5.5 : gains[(op + k) % 4];
    auto p = ctrl_params<P, 4>(c);
    switch (op) {
      case 1: acro.update_kp_rot(p.acro_controller_params.kp_rot); break;
      case 2: m.get_controller().get_acro_controller().update_kp_rot(p.acro_controller_params.kp_rot); break;
      case 3: acro.update_params(p.acro_controller_params); break;
      case 4: m.get_controller().get_acro_controller().update_params(p.acro_controller_params); break;
      case 5: ctrl.update_acro_controller_params(p.acro_controller_params); break;
      case 6: ctrl.update_params(p); break;
      case 7: m.set_controller_params(p); break;
      case 8: ctrl = multirotor::controller::Controller<P, 4>(p); break;
      case 9: acro = acro_controller::AcroController<P>(p.acro_controller_params); break;
      case 10: ctrl.reset_controller(); break;
      default: break;
    }
    r.say([&] { return "change " + std::to_string(op) + ", gain " + mc::num(c.kp_rot[2][2]); });
    judge(r, m, c, 0.01);
    m.update_dynamics((P)0.01);
    judge(r, m, c, 0.02);
  }
}
// flights: every step tracks
static void flightrun(mc::Run& r, int len) {
  CtrlSpec c = standard_ctrl(standard());
  SimSpec s = spec(standard(), c);
  s.start = flight(1 + r.choose(2, "start"), 4);
  Sim<> m(sim_params(s));
  m.arm();
  m.set_control_mode(cmode(r.choose(6, "mode")), ymode(r.choose(2, "yaw mode")));
  m.set_reference_yaw_rate(r.pick(std::vector<double>{1, -3}, "rate"));
  m.set_refence_motors_angular_velocity(pattern(1130, 2));
  m.set_reference_acro(9.8, e3<double>({0, 0, 2}));
  for (int k = 0; k < len; k++) {
    switch (r.deviate(6)) {
      case 1: m.disarm(); break;
      case 2: m.arm(); break;
      case 3: m.set_control_mode(cmode((m.get_control_mode() + 1) % 6), multirotor::YawControlMode::RATE); break;
      case 4: m.set_control_mode(m.get_control_mode(), multirotor::YawControlMode::ANGLE); break;
      case 5: m.set_reference_yaw_rate(0.4); break;
      default: break;
    }
    judge(r, m, c, 0.01);
    m.update_dynamics(0.01);
  }
}
// every number of every sign and size, some of them unusual
static void unusual(mc::Run& r) {
  CtrlSpec c = busy_ctrl(standard());
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.kp_rot[i][j] = r.wide(c.kp_rot[i][j], 1e4, "attitude gain");
  c.rate.kp[2] = r.wide(5, 1e3, "rate gain");
  SimSpec s = spec(standard(), c);
  double pitch = r.wide(-0.3, 7, "pitch");
  s.start.q = ref::rpy(r.wide(0.4, 7, "roll"), pitch, r.wide(2, 100, "yaw"));
  for (int i = 0; i < 3; i++) { s.start.p[i] = r.wide(1 + i, 1e4, "position"); s.start.v[i] = r.wide(0.2 * i, 1e3, "velocity"); s.start.w[i] = r.wide(0.4 - 0.3 * i, 100, "rate"); }
  Sim<> m(sim_params(s));
  if (!r.deviate(2, "disarmed")) m.arm();
  m.set_control_mode(cmode(r.choose(6, "mode")), ymode(r.choose(2, "yaw mode")));
  m.set_reference_position(e3<double>({r.wide(1, 1e4, "x"), 2, 3}));
  m.set_reference_yaw_angle(r.wide(0.7, 1e4, "yaw reference"));
  m.set_reference_yaw_rate(r.wide(0.9, 1e4, "yaw rate reference"));
  static const double ts[] = {0.01, 1e-6, 0.3, 5};
  if (std::fabs(std::cos(pitch)) < 0.02) return;
  judge(r, m, c, ts[r.deviate(4, "step")]);
}
// the conversion on its own
template <typename P>
static void conversion(mc::Run& r) {
  CtrlSpec c = r.flag("all gains different") ? busy_ctrl(standard()) : standard_ctrl(standard());
  c.kp_rot[2][2] = r.wide(8, 1e4, "yaw gain");
  c.kp_rot[0][0] = r.wide(c.kp_rot[0][0], 1e4, "roll gain");
  c.kp_rot[2][0] = r.wide(c.kp_rot[2][0], 1e4, "coupling");
  c.rate.kp[2] = r.wide(c.rate.kp[2], 1e4, "rate gain");
  multirotor::controller::Controller<P, 4> k(ctrl_params<P, 4>(c));
  for (int i = 0; i < 2; i++) {
    double y = (P)r.wide(0.7 + i, 1e4, "yaw"), w = (P)r.wide(-0.9, 1e4, "rate"), g = (P)c.kp_rot[2][2];
    auto v = ctrl_view(k);
    double a = k.yaw_rate_to_angle((P)y, (P)w);
    r.step();
    r.near(a, g == 0 ? y : y + w / g, "yaw from a yaw rate", sizeof(P) == 4 ? 1e-6 : 1e-13);
    auto u = ctrl_view(k);
    for (size_t j = 0; j < v.size(); j++) r.same(u[j], v[j], "the conversion changes the controller");
    if (i == 0 && r.deviate(2, "reset")) k.reset_controller();
    r.obs(a); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "2 gain sets x 5 yaw gains x 216 attitudes x 6 modes x 2 yaw modes x arming x 8 references";
    ex.explore("grid", b, 0, grid<double>);
    ex.explore("grid_f", b + ", single precision", 0, grid<float>);
    ex.explore("conversion", "2 gain sets, any 3 numbers of unusual sign or size", 3, conversion<double>);
    ex.explore("conversion_f", "the same in single precision, any 2", 2, conversion<float>);
    ex.explore("calls", "starts x arming x all sequences of 12 operations", 0, [t](mc::Run& r) { calls<double>(r, t ? 6 : 5); });
    ex.explore("calls_f", "the same, depth 3, single precision", 0, [](mc::Run& r) { calls<float>(r, 3); });
    ex.explore("tuned", "2 gain sets x 2 starts x 6 modes x all sequences of 11 ways to set the gain", 0, [t](mc::Run& r) { tuned<double>(r, t ? 4 : 3); });
    ex.explore("tuned_f", "the same, depth 2, single precision", 0, [](mc::Run& r) { tuned<float>(r, 2); });
    ex.explore("unusual", "6 modes x 2 yaw modes, any " + std::to_string(t ? 3 : 2) + " numbers of unusual sign or size", t ? 3 : 2, unusual);
    ex.explore("endurance", "flights of 5000 steps", 0, [t](mc::Run& r) { flightrun(r, t ? 50000 : 5000); });
    ex.explore("flights", "2 starts x 6 modes x 2 yaw modes, flights with commands at any moment", 2, [t](mc::Run& r) { flightrun(r, t ? 100 : 30); });
  });
}
