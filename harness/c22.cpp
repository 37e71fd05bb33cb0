// C22: sensors and odometry follow the simulated vehicle; they never influence it.
#include "sim.hpp"
using namespace qm;
using ref::V;
template <typename P, int N>
static void drive(Sim<P, N>& s, int k) {  // one of several in-flight commands
  switch (k) {
    case 1: s.set_control_mode(multirotor::POSITION); s.set_reference_position(e3<P>({1, -2, 3})); break;
    case 2: s.set_control_mode(multirotor::ACRO); s.set_reference_acro((P)12, e3<P>({2, -1, 1.5})); break;
    case 3: s.set_control_mode(multirotor::MOTOR_W); s.set_refence_motors_angular_velocity(pattern<P, N>(900, 60)); break;
    case 4: s.set_control_mode(multirotor::VELOCITY, multirotor::YawControlMode::RATE); s.set_reference_velocity(e3<P>({1, 1, -0.5})); s.set_reference_yaw_rate((P)1); break;
    case 5: s.disarm(); break;
    case 6: s.set_control_mode(multirotor::TRAJECTORY); s.set_reference_trajectory(e3<P>({1, -1, 3}), e3<P>({0.5, 0.2, -0.1}), e3<P>({0.3, 0, 0.4})); s.set_reference_yaw_angle((P)0.9); break;
    case 7: s.set_control_mode(multirotor::HOVER); break;
    default: break;
  }
}
struct Base { V p, v, op, ov, w; double t = 0; };
static double angle(const ref::Q& a, const ref::Q& b) {
  ref::Q d = ref::qmul(ref::qconj(a), b);
  return 2 * std::atan2(std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z), std::fabs(d.w));
}
template <typename P, int N>
static void fly(mc::Run& r, int len, bool floor, const ref::Vehicle& body, const CtrlSpec& c, double noise) {
  SimSpec s = spec(body, c);
  s.start = flight(r.choose(6, "start"), N);
  if (r.flag("start without rotation")) s.start.w = V{};
  s.odo_q = s.start.q;
  s.fnoise = noise;
  double dt = r.pick(std::vector<double>{0.01, 0.0025}, "step");
  Sim<P, N> a(sim_params<P, N>(s)), b(sim_params<P, N>(s));
  if (floor) { a.enable_floor_collision((P)0.5); b.enable_floor_collision((P)0.5); }
  a.arm(); b.arm();
  int m = r.pick(std::vector<int>{1, 2, 3, 4, 6}, "first command");
  drive(a, m); drive(b, m);
  const double eps = sizeof(P) == 4 ? 2e-4 : 1e-9;
  auto base = [&] {
    ref::State x = get<P, N>(a.get_state());
    Sensors z = sensors(a);
    Base q;
    q.p = x.p; q.v = x.v; q.w = x.w; q.op = z.p; q.ov = z.v;
    return q;
  };
  Base o = base();
  for (int k = 0; k < len; k++) {
    int d = r.deviate(8);
    drive(a, d); drive(b, d);
    a.update_controller((P)dt); b.update_controller((P)dt);
    a.update_dynamics((P)dt); b.update_dynamics((P)dt);
    ref::State x = get<P, N>(a.get_state());
    a.update_imu((P)dt);
    Sensors i = sensors(a);
    a.update_inertial_odometry((P)dt);
    r.step();
    o.t += dt;
    bool contact = floor && x.p[2] <= (P)0.5 && ref::norm(x.v) == 0 && ref::norm(x.w) == 0;
    if (r.novel()) {
      Sensors z = sensors(a);
      r.say([&] { return "p " + str(x.p) + " v " + str(x.v) + " w " + str(x.w) + " gyro " + str(i.gyro) + " accel " + str(i.accel) + " odometry p " + str(z.p) + " v " + str(z.v); });
      r.near_v(i.gyro, x.w, 3, "gyroscope against body rates", eps);
      r.near_v(i.accel, ref::rotinv(x.q, x.force / body.mass), 3, "accelerometer against force per mass", eps);
      same_state(r, x, get<P, N>(b.get_state()));
      same_refs(r, refs<P, N>(a), refs<P, N>(b));
      same_ctrl<P, N>(r, a.get_controller_const(), b.get_controller_const());
      if (!contact) {
        V dv = x.v - o.v, ov = z.v - o.ov, dp = x.p - o.p - o.t * o.v, op = z.p - o.op - o.t * o.ov;
        double w0 = ref::norm(o.w) * dt, lim = 1.2 * w0 * ref::norm(dv) + eps * (1 + ref::norm(x.v));
        r.require(ref::norm(dv - ov) <= lim, "odometry velocity left the vehicle velocity");
        r.require(ref::norm(dp - op) <= 1.2 * w0 * ref::norm(dp) + 1.2 * dt * ref::norm(dv) + eps * (1 + ref::norm(x.p) + ref::norm(z.p)), "odometry position left the vehicle displacement");
        r.require(angle(z.q, x.q) <= w0 + ref::norm(x.w) * dt + eps, "odometry attitude left the vehicle attitude");
      } else {
        r.require(angle(z.q, x.q) <= eps, "odometry attitude after floor contact");
      }
      obs_state(r, x); r.obs(z.v); r.obs(z.p); r.state();
    }
    if (contact) o = base();
  }
}
// All sequences of sensor and vehicle operations: the vehicle and controllers do what they do without the sensor operations
static void independent(mc::Run& r, int depth) {
  SimSpec s = spec(standard(), busy_ctrl(standard()));
  s.start = flight(r.choose(4, "start"), 4);
  s.fnoise = 0.02;
  int noisy = r.choose(2, "noisy sensors");
  if (noisy) { s.gyro_var = 0.1; s.accel_var = 0.5; s.gyro_walk = 0.01; s.accel_walk = 0.02; s.alpha = 0.4; s.imu_q = ref::rpy(1, 0.5, 0.2); }
  Sim<> a(sim_params(s)), b(sim_params(s));
  a.arm(); b.arm();
  int m = r.pick(std::vector<int>{1, 2, 3, 4, 6, 7}, "first command");
  drive(a, m); drive(b, m);
  for (int k = 0; k < depth; k++) {
    bool both = false;
    switch (r.choose(9)) {
      case 0: a.update_controller(0.01); b.update_controller(0.01); a.update_dynamics(0.01); b.update_dynamics(0.01); both = true; break;
      case 1: a.update_imu(0.01); break;
      case 2: a.update_inertial_odometry(0.01); break;
      case 3: a.update_imu(0.5); a.update_inertial_odometry(0.5); break;
      case 4: a.get_imu().reset(); break;
      case 5: a.get_inertial_odometry().reset(); break;
      case 6: a.update_dynamics(0.004); b.update_dynamics(0.004); both = true; break;
      case 7: drive(a, m == 4 ? 6 : 4); drive(b, m == 4 ? 6 : 4); break;
      case 8: a.update_imu(0); a.update_imu(-1); a.get_imu().set_random_seed(4); break;
    }
    r.step();
    if (!r.novel()) continue;
    same_state(r, get<double, 4>(a.get_state()), get<double, 4>(b.get_state()));
    same_refs(r, refs<double, 4>(a), refs<double, 4>(b));
    same_ctrl<double, 4>(r, a.get_controller_const(), b.get_controller_const());
    if (both) { obs_all(r, a); obs_sensors(r, sensors(a)); r.state(); }
  }
  a.update_dynamics(0.01); b.update_dynamics(0.01);
  same_state(r, get<double, 4>(a.get_state()), get<double, 4>(b.get_state()));
}
// Reading of any state: attitude lattice x mass x forces, through the simulator's own dynamics
static void readings(mc::Run& r) {
  ref::Vehicle b = r.pick(std::vector<ref::Vehicle>{standard(0.25), standard(7), crooked(), tilted()}, "vehicle");
  SimSpec s = spec(b, standard_ctrl(standard()));
  static const std::vector<double> ang = {0, 0.5, -1.2, 2.4, M_PI};
  s.start.q = ref::rpy(r.pick(ang, "roll"), r.pick(std::vector<double>{0, 0.7, -1.3}, "pitch"), r.pick(ang, "yaw"));
  s.start.w = r.pick(std::vector<V>{{0, 0, 0}, {3, -4, 5}, {-0.1, 0, 0.2}}, "rates");
  s.start.v = r.pick(std::vector<V>{{0, 0, 0}, {2, -6, 1}}, "velocity");
  s.start.force = {7, 7, 7};
  s.start.m.assign(4, 800);
  Sim<> a(sim_params(s));
  a.set_refence_motors_angular_velocity(pattern(700, 100));
  if (r.flag("armed")) a.arm();
  double dt = r.pick(std::vector<double>{0.01, 0.001, 0.05}, "step");
  int when = r.choose(3, "vehicle changes"), route = when ? r.choose(4, "route") : 0;
  auto& model = a.get_dynamics().get_model();
  for (int k = 0; k < 4; k++) {
    if (when && k == when) {
      b.mass *= 1.75;
      auto p = model_params<double, 4>(b);
      if (route == 0) { multirotor::dynamics::DynamicsParams<double, 4> q; q.model_params = p; q.state = a.get_state(); a.set_dynamics_params(q); }
      if (route == 1) a.get_dynamics().get_model().update_params(p);
      if (route == 2) model.update_params(p);
      if (route == 3) a.get_dynamics().set_model(multirotor::model::Model<double, 4>(p));
    }
    a.update_controller(dt);
    a.update_dynamics(dt);
    a.update_imu(dt);
    r.step();
    if (!r.novel()) continue;
    ref::State x = get<double, 4>(a.get_state());
    Sensors i = sensors(a);
    E3<double> g, f;
    a.get_imu_measurement(g, f);
    r.near_v(i.gyro, x.w, 3, "gyroscope against body rates", 1e-11);
    r.near_v(i.accel, ref::rotinv(x.q, x.force / b.mass), 3, "accelerometer against force per mass", 1e-11);
    r.same_v(v3(g), i.gyro, 3, "gyroscope query"); r.same_v(v3(f), i.accel, 3, "accelerometer query");
    obs_state(r, x); r.obs(i.accel); r.state();
  }
}
// readings of states of every sign and size
static void unusual(mc::Run& r) {
  ref::Vehicle b = r.flag("crooked") ? crooked() : standard(1.3);
  b.mass = std::fabs(r.wide(b.mass, 1e4, "mass"));
  if (b.mass == 0) b.mass = 0.7;
  SimSpec s = spec(b, standard_ctrl(standard()));
  s.start.q = ref::rpy(r.wide(0.4, 7, "roll"), r.wide(-0.3, 7, "pitch"), r.wide(2, 7, "yaw"));
  for (int i = 0; i < 3; i++) {
    s.start.p[i] = r.wide(1 + i, 1e4, "position"); s.start.v[i] = r.wide(0.6 * i - 0.5, 1e3, "velocity"); s.start.w[i] = r.wide(0.4 - 0.3 * i, 100, "rate");
    s.start.force[i] = r.wide(3, 1e4, "force");
  }
  for (int i = 0; i < 4; i++) s.start.m[i] = r.wide(900 + 30 * i, 1e4, "motor");
  Sim<> a(sim_params(s));
  if (!r.deviate(2, "disarmed")) a.arm();
  drive(a, r.pick(std::vector<int>{1, 2, 3, 4, 6, 7}, "command"));
  double dt = r.pick(std::vector<double>{0.01, 1e-4}, "step");
  for (int k = 0; k < 2; k++) {
    a.update_controller(dt);
    a.update_dynamics(dt);
    ref::State x = get<double, 4>(a.get_state());
    a.update_imu(dt);
    a.update_inertial_odometry(dt);
    r.step();
    if (!r.novel()) continue;
    Sensors i = sensors(a);
    r.near_v(i.gyro, x.w, 3, "gyroscope against body rates", 1e-10);
    r.near_v(i.accel, ref::rotinv(x.q, x.force / b.mass), 3, "accelerometer against force per mass", 1e-9);
    same_state(r, get<double, 4>(a.get_state()), x);
    obs_state(r, x); r.obs(i.accel); r.state();
  }
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    int d = t ? 2 : 1, len = t ? 60 : 80;
    std::string b = "6 starts x rotation x 2 steps x 5 modes, flights with up to " + std::to_string(d) + " of 7 commands at any moment";
    auto sc = [&](const char* n, bool floor, ref::Vehicle v, double noise, int len) {
      ex.explore(n, b, d, [=](mc::Run& r) { fly<double, 4>(r, len, floor, v, standard_ctrl(standard()), noise); });
    };
    sc("fly", false, standard(), 0, len);
    sc("floor", true, standard(), 0, len);
    sc("crooked", false, crooked(), 0, len / 2);
    sc("noisy_floor", true, standard(2), 0.05, len / 2);
    ex.explore("fly_f", b + ", single precision", 1, [=](mc::Run& r) { fly<float, 4>(r, 60, false, standard(), standard_ctrl(standard()), 0); });
    ex.explore("unusual", "any " + std::to_string(t ? 3 : 2) + " numbers of unusual sign or size", t ? 3 : 2, unusual);
    int el = t ? 20000 : 2000;
    ex.explore("endurance", "flights of " + std::to_string(el) + " steps", 0, [=](mc::Run& r) { fly<double, 4>(r, el, false, standard(), standard_ctrl(standard()), 0); });
    ex.explore("endurance_floor", "flights of " + std::to_string(el) + " steps with the floor", 0, [=](mc::Run& r) { fly<double, 4>(r, el, true, standard(), standard_ctrl(standard()), 0); });
    ex.explore("independent", "starts x sensors x commands x all sequences of 9 operations", 0, [t](mc::Run& r) { independent(r, t ? 6 : 4); });
    ex.explore("readings", "4 vehicles x 75 attitudes x motion x 3 steps", 0, readings);
  });
}
