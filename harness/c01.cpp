// C01: a disarmed vehicle is never commanded to spin its motors.
#include "sim.hpp"
using namespace qm;

template <typename P, int N>
struct World {
  // `a` gets every call, `b` all but the control updates made while disarmed
  Sim<P, N> a, b;
  bool armed = false;
  multirotor::SimulatorParams<P, N> given;
  World(const SimSpec& s) : a(sim_params<P, N>(s)), b(sim_params<P, N>(s)), given(sim_params<P, N>(s)) {}
  template <typename F> void both(F f) { f(a); f(b); }
  void control(P dt) {
    if (armed) b.update_controller(dt);
    a.update_controller(dt);
  }
  void judge(mc::Run& r) {
    r.step();
    if (!r.novel()) return;
    r.require(a.get_armed() == armed, "arming state");
    if (!armed) {
      auto c = vn(a.get_actuation_motors_angular_velocity());
      for (int i = 0; i < N; i++) r.same(c[i], 0, "commanded motor speed while disarmed");
    }
    same_all<P, N>(r, a, b);
    obs_all<P, N>(r, a);
    r.state();
  }
};
template <typename P, int N>
static void op(mc::Run& r, World<P, N>& w, int k) {
  using S = Sim<P, N>;
  if (k >= 22) {
    static const char* const name[] = {"controller parameters", "dynamics parameters", "sensor parameters", "floor", "no floor"};
    r.say([&] { return std::string(name[k - 22]); });
    switch (k) {
      case 22: w.both([&](S& s) { s.set_controller_params(w.given.controller_params); }); break;
      case 23: w.both([&](S& s) { s.set_dynamics_params(w.given.dynamics_params); }); break;
      case 24: w.both([&](S& s) { s.set_imu_params(w.given.imu_params); s.set_inertial_odometry_params(w.given.inertial_odometry_params); }); break;
      case 25: w.both([](S& s) { s.enable_floor_collision((P)2.45); }); break;
      case 26: w.both([](S& s) { s.disable_floor_collision(); }); break;
    }
  } else if (k >= 10) {
    int m = (k - 10) % 6, y = (k - 10) / 6;
    r.say([&] { return std::string("mode ") + mode_name[m] + (y ? " yaw rate" : ""); });
    w.both([&](S& s) { s.set_control_mode(cmode(m), ymode(y)); });
  } else {
    static const char* const name[] = {"control", "dynamics", "arm", "disarm", "references 0", "control dt=0.002", "references 1", "huge references", "sensors", "control dt=0.05"};
    r.say([&] { return std::string(name[k]); });
    switch (k) {
      case 0: w.control((P)0.01); break;
      case 1: w.both([](S& s) { s.update_dynamics((P)0.01); }); break;
      case 2: w.both([](S& s) { s.arm(); }); w.armed = true; break;
      case 3: w.both([](S& s) { s.disarm(); }); w.armed = false; break;
      case 4: w.both([](S& s) { set_all_refs<P, N>(s, 0); }); break;
      case 5: w.control((P)0.002); break;
      case 6: w.both([](S& s) { set_all_refs<P, N>(s, 1); }); break;
      case 7: w.both([](S& s) {
        P inf = std::numeric_limits<P>::infinity();
        s.set_refence_motors_angular_velocity(EN<P, N>::Constant(inf));
        s.set_reference_acro(inf, e3<P>({1e30, -1e30, 1e30}));
        s.set_reference_position(e3<P>({1e30, -1e30, 1e30}));
        s.set_reference_velocity(e3<P>({-1e30, 1e30, 1e30}));
      }); break;
      case 8: w.both([](S& s) { s.update_imu((P)0.01); s.update_inertial_odometry((P)0.01); }); break;
      case 9: w.control((P)0.05); break;
    }
  }
  w.judge(r);
}
template <typename P, int N>
static void sequences(mc::Run& r, const SimSpec& s0, int depth, const std::vector<int>& ops, int start, bool armed_first) {
  SimSpec s = s0;
  s.start = flight(start, N);
  World<P, N> w(s);
  w.judge(r);
  if (armed_first) {
    op(r, w, 2);
    op(r, w, 4);
  }
  for (int k = 0; k < depth; k++) op(r, w, ops[r.choose((int)ops.size())]);
}
// A flight in one mode, with up to `budget` departures
static void flight_with_departures(mc::Run& r, const SimSpec& s0, int len) {
  SimSpec s = s0;
  s.start = flight(1, 4);
  World<double, 4> w(s);
  int m = r.choose(12, "mode");
  op(r, w, 2);
  op(r, w, 10 + m);
  op(r, w, 4);
  static const int alt[] = {-1, 3, 2, 6, 7, 10, 12, 14, 9, 22, 23, 24, 26};
  bool floor = r.flag("floor");
  if (floor) w.both([](Sim<double, 4>& x) { x.enable_floor_collision(2.45); });
  for (int k = 0; k < len; k++) {
    int d = r.deviate(13);
    if (d) op(r, w, alt[d]);
    op(r, w, 0);
    op(r, w, 1);
  }
}
// Disarmed updates with any time step
static void any_dt(mc::Run& r, const SimSpec& s0) {
  static const std::vector<double> dts = {0.01, 0, -1, 1e-9, 100, INFINITY};
  SimSpec s = s0;
  s.start = flight(r.choose(6, "start"), 4);
  World<double, 4> w(s);
  if (r.flag("flown before")) {
    op(r, w, 2);
    op(r, w, 10 + r.choose(12, "mode"));
    op(r, w, 4 + 2 * r.choose(2, "references"));
    for (int k = 0; k < 3; k++) { op(r, w, 0); op(r, w, 1); }
    op(r, w, 3);
  }
  for (int k = 0; k < 2; k++) {
    w.control(r.pick(dts, "dt"));
    w.judge(r);
    op(r, w, 10 + r.choose(12, "mode"));
    w.control(0.01);
    w.judge(r);
  }
  op(r, w, 2);
  op(r, w, 0);
}
// Many updates, and many arming cycles
static void endurance(mc::Run& r, const SimSpec& s0, int len) {
  SimSpec s = s0;
  s.start = flight(r.choose(2, "start"), 4);
  World<double, 4> w(s);
  int m = r.choose(12, "mode"), style = r.choose(3, "style");
  op(r, w, 10 + m);
  op(r, w, 4);
  int on = style == 0 ? 0 : style == 1 ? 3 : 150, off = style == 0 ? 1 : style == 1 ? 2 : 350;
  for (int k = 0; k < len;) {
    if (on) {
      op(r, w, 2);
      for (int i = 0; i < on; i++, k++) { op(r, w, 0); op(r, w, 1); }
      op(r, w, 3);
    }
    for (int i = 0; i < off; i++, k++) op(r, w, i % 2 ? 0 : 5);
    if (w.a.get_state().kinematics.position.norm() > 1e3) w.both([&](Sim<double, 4>& x) { x.get_dynamics().set_state(put<double, 4>(s.start)); });
  }
}
// References and states of every size, armed and disarmed
static void unusual(mc::Run& r, const SimSpec& s0) {
  SimSpec s = s0;
  int m = r.choose(12, "mode");
  bool flown = r.flag("flown before");
  auto v = [&](ref::V d, const char* n) { ref::V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], 1e8, n); return o; };
  s.start.p = v({0.5, -1.5, 2.5}, "position"); s.start.v = v({0.3, -0.4, 0.2}, "velocity"); s.start.w = v({0.1, 0.2, -0.3}, "rates");
  s.start.q = ref::rpy(r.wide(0.2, 10, "roll"), 0.1, r.wide(0.3, 10, "yaw"));
  for (auto& x : s.start.m) x = r.wide(900, 1e4, "motor speed");
  World<double, 4> w(s);
  if (flown) { op(r, w, 2); op(r, w, 10 + m); op(r, w, 4); op(r, w, 0); op(r, w, 1); op(r, w, 3); }
  op(r, w, 10 + m);
  ref::V p = v({1, 2, 3}, "position reference"), q = v({0.4, 0.5, -0.6}, "velocity reference"), a = v({0.1, 0.2, 0.3}, "acceleration reference"), u = v({0.2, -0.1, 0.4}, "rate reference");
  double t = r.wide(10, 1e8, "thrust"), yaw = r.wide(0.5, 1e8, "yaw reference"), rate = r.wide(-0.6, 1e8, "yaw rate reference"), mot = r.wide(1000, 1e8, "motor reference");
  w.both([&](Sim<double, 4>& x) {
    x.set_reference_trajectory(e3(p), e3(q), e3(a)); x.set_reference_acro(t, e3(u)); x.set_reference_yaw_angle(yaw); x.set_reference_yaw_rate(rate);
    x.set_refence_motors_angular_velocity(pattern(mot, 10));
  });
  w.judge(r);
  op(r, w, 0); op(r, w, 1); op(r, w, 9);
  op(r, w, 2); op(r, w, 0); op(r, w, 1); op(r, w, 3); op(r, w, 1); op(r, w, 0);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    SimSpec std_ = spec(standard(), standard_ctrl(standard()));
    SimSpec busy = spec(crooked(), busy_ctrl(crooked()));
    busy.gyro_var = 0.01; busy.accel_var = 0.02; busy.fnoise = 0.1; busy.gyro_walk = 0.01; busy.imu_seed = 5; busy.model_seed = 9;
    std::vector<int> all, few = {0, 1, 2, 3, 4, 7};
    for (int i = 0; i < 27; i++) all.push_back(i);
    int d = ex.thorough ? 5 : 4;
    ex.explore("all_ops_from_rest", "all sequences of 27 calls, length " + std::to_string(d), 0, [&](mc::Run& r) { sequences<double, 4>(r, std_, d, all, 0, false); });
    ex.explore("all_ops_in_flight", "all sequences of 27 calls, length " + std::to_string(d) + ", after arming in flight", 0, [&](mc::Run& r) { sequences<double, 4>(r, busy, d, all, 2, true); });
    int e = ex.thorough ? 8 : 6;
    for (int m : {10, 12, 13, 15, 16, 19})
      ex.explore("deep_mode" + std::to_string(m), "all sequences of 7 calls, length " + std::to_string(e), 0, [&](mc::Run& r) {
        auto ops = few;
        ops.push_back(m);
        sequences<double, 4>(r, busy, e, ops, 1, false);
      });
    ex.explore("float_hexa", "all sequences of 9 calls, length 4", 0, [&](mc::Run& r) {
      auto ops = few;
      ops.push_back(12); ops.push_back(15); ops.push_back(10);
      SimSpec s = spec(hexa(), standard_ctrl(standard()));
      s.ctrl.alloc.resize(6, {0, 0, 1e5, 2e6, -1e6, 3e5});
      sequences<float, 6>(r, s, 4, ops, 2, false);
    });
    ex.explore("endurance", "2 starts x 12 modes x 3 patterns of arming, 3000 updates each", 0, [&](mc::Run& r) { endurance(r, busy, 3000); });
    ex.explore("unusual", "12 modes, every number of state and references unusual", ex.thorough ? 2 : 1, [&](mc::Run& r) { unusual(r, std_); });
    ex.explore("any_dt", "all combinations", 0, [&](mc::Run& r) { any_dt(r, busy); });
    ex.explore("flight", "flights of " + std::to_string(ex.thorough ? 60 : 40) + " control and dynamics steps in each mode", ex.thorough ? 2 : 1, [&](mc::Run& r) { flight_with_departures(r, busy, r.thorough() ? 60 : 40); });
  });
}
