// C26: comma separated rows.
#include <cmath>
#include <iomanip>
#include <sstream>
#include "sim.hpp"
using namespace qm;
using ref::V;
namespace si = multirotor::state::internal;
static std::vector<double> parse(mc::Run& r, const std::string& row) {
  std::vector<double> v;
  std::string cell;
  std::stringstream in(row);
  r.require(row.find('\n') == std::string::npos, "row contains a line break");
  r.require(row.empty() || row.back() != ',', "row ends with a comma");
  while (std::getline(in, cell, ',')) {
    char* end = nullptr;
    double x = std::strtod(cell.c_str(), &end);
    r.require(!cell.empty() && *end == 0, "column is not a number");
    v.push_back(x);
  }
  return v;
}
static V euler(const ref::Q& q0) {
  ref::Q q = ref::qunit(q0);
  return {std::atan2(2 * (q.w * q.x + q.y * q.z), 1 - 2 * (q.x * q.x + q.y * q.y)), std::asin(std::max(-1.0, std::min(1.0, 2 * (q.w * q.y - q.z * q.x)))),
          std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z))};
}
struct Col { double v; bool angle; };
using Cols = std::vector<Col>;
static void add(Cols& c, const V& v) { for (double x : v) c.push_back({x, false}); }
static void add(Cols& c, const std::vector<double>& v) { for (double x : v) c.push_back({x, false}); }
static void add_angles(Cols& c, const V& v) { for (double x : v) c.push_back({x, true}); }
static Cols kin(const ref::State& s) {
  Cols c;
  add(c, s.p); add_angles(c, euler(s.q)); add(c, s.v); add(c, s.w); add(c, s.a); add(c, s.dw);
  return c;
}
static Cols dyn(const ref::State& s) { Cols c; add(c, s.force); add(c, s.torque); return c; }
static Cols act(const ref::State& s) { Cols c; add(c, s.m); add(c, s.dm); return c; }
static Cols join(Cols a, const Cols& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// format 0: default, 1: 17 digits, 2: scientific with 17 digits
template <typename T>
static std::string write(const T& x, int format) {
  std::ostringstream os;
  if (format) os << std::setprecision(17);
  if (format == 2) os << std::scientific;
  os << x;
  return os.str();
}
static void judge(mc::Run& r, const std::string& row, const Cols& e, int format, bool single, const char* what) {
  r.say([&] { return std::string(what) + ": " + row; });
  std::vector<double> a = parse(r, row);
  r.require(a.size() == e.size(), "number of columns");
  for (size_t i = 0; i < e.size(); i++) {
    double tol = format ? (single ? 1e-7 : 1e-15) : 6e-6;
    if (e[i].angle) {
      double d = std::fabs(std::remainder(a[i] - e[i].v, 2 * M_PI));
      r.require(d <= (format ? (single ? 2e-5 : 1e-8) : 3e-5), "angle column");
    } else {
      if (a[i] == e[i].v || (std::isnan(a[i]) && std::isnan(e[i].v))) continue;
      r.require(std::fabs(a[i] - e[i].v) <= tol * std::fabs(e[i].v), "value column");
    }
  }
}
// "name: value, name: value, ..."
using Named = std::vector<std::pair<std::string, Col>>;
static Named name(const Cols& c, const std::vector<std::string>& n) {
  Named o;
  for (size_t i = 0; i < c.size(); i++) o.push_back({n[i], c[i]});
  return o;
}
static const std::vector<std::string>& kin_names() {
  static const std::vector<std::string> n = [] {
    std::vector<std::string> v;
    for (const char* g : {"position_x", "position_y", "position_z", "orientation_roll", "orientation_pitch", "orientation_yaw"}) v.push_back(g);
    for (const char* g : {"linear_velocity", "angular_velocity", "linear_acceleration", "angular_acceleration"})
      for (const char* x : {"_x", "_y", "_z"}) v.push_back(std::string(g) + x);
    return v;
  }();
  return n;
}
static const std::vector<std::string> dyn_names = {"force_x", "force_y", "force_z", "torque_x", "torque_y", "torque_z"};
static std::vector<std::string> act_names(size_t n) {
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) v.push_back("motor_" + std::to_string(i) + "_angular_velocity");
  for (size_t i = 0; i < n; i++) v.push_back("motor_" + std::to_string(i) + "_angular_acceleration");
  return v;
}
static void judge_named(mc::Run& r, const std::string& text, const Named& e, int format, bool single, const char* what) {
  r.say([&] { return std::string(what) + ": " + text; });
  std::map<std::string, std::string> m;
  std::stringstream in(text);
  std::string cell;
  while (std::getline(in, cell, ',')) {
    size_t a = cell.find_first_not_of(" \n"), b = cell.find(':');
    r.require(a != std::string::npos && b != std::string::npos && b > a, "entry of a labelled printout is not \"name: value\"");
    r.require(m.emplace(cell.substr(a, b - a), cell.substr(b + 1)).second, "name printed twice");
  }
  r.require(m.size() == e.size(), "number of names of a labelled printout");
  std::string row;
  Cols c;
  for (auto& x : e) {
    auto it = m.find(x.first);
    r.require(it != m.end(), "name missing from a labelled printout");
    std::string v = it->second;
    size_t a = v.find_first_not_of(" "), b = v.find_last_not_of(" \n");
    r.require(a != std::string::npos, "name without a value");
    row += (row.empty() ? "" : ",") + v.substr(a, b - a + 1);
    c.push_back(x.second);
  }
  judge(r, row, c, format, single, what);
}
template <typename F>
static std::string printed(int format, F f) {
  std::ostringstream os;
  if (format) os << std::setprecision(17);
  if (format == 2) os << std::scientific;
  f(os);
  return os.str();
}
template <typename F>
static std::string on_cout(F f) {  // at the default format
  std::ostringstream os;
  std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  f();
  std::cout.rdbuf(old);
  return os.str();
}
template <typename P, int N>
static void labels_of(mc::Run& r, const multirotor::state::State<P, N>& s, int format) {
  ref::State x = get<P, N>(s);
  bool f = sizeof(P) == 4;
  Named k = name(kin(x), kin_names()), d = name(dyn(x), dyn_names), a = name(act(x), act_names(N)), all = k;
  all.insert(all.end(), d.begin(), d.end());
  all.insert(all.end(), a.begin(), a.end());
  judge_named(r, printed(format, [&](std::ostream& o) { si::print_kinematics(o, s.kinematics); }), k, format, f, "labelled kinematics");
  judge_named(r, printed(format, [&](std::ostream& o) { si::print_dynamics(o, s.dynamics); }), d, format, f, "labelled dynamics");
  judge_named(r, printed(format, [&](std::ostream& o) { si::print_actuators(o, s.actuators); }), a, format, f, "labelled actuators");
  if (format == 0) judge_named(r, on_cout([&] { multirotor::state::print_state(s); }), all, 0, f, "labelled state");
  same_state(r, get<P, N>(s), x);
}
template <typename P, int N>
static void row_of(mc::Run& r, const multirotor::state::State<P, N>& s, int format) {
  ref::State x = get<P, N>(s);
  bool f = sizeof(P) == 4;
  judge(r, write(s.kinematics, format), kin(x), format, f, "kinematics");
  judge(r, write(s.dynamics, format), dyn(x), format, f, "dynamics");
  judge(r, write(s.actuators, format), act(x), format, f, "actuators");
  judge(r, write(s, format), join(join(kin(x), dyn(x)), act(x)), format, f, "state");
  labels_of<P, N>(r, s, format);
  same_state(r, get<P, N>(s), x);
}
template <typename P>
static const std::vector<double>& values() {
  static const std::vector<double> v = sizeof(P) == 4 ? std::vector<double>{0, -1.5, 1.0 / 3, 12345.678, -9.8765e-7, 3e20, -2e-20, 1e9, 65536}
                                                      : std::vector<double>{0, -1.5, 1.0 / 3, 12345.678, -9.8765e-7, 3e200, -2e-200, 123456789.125, 65536, 1e15 + 1};
  return v;
}
static double* field(ref::State& s, int i) {
  V* v[] = {&s.p, &s.v, &s.w, &s.a, &s.dw, &s.force, &s.torque};
  if (i < 21) return &(*v[i / 3])[i % 3];
  i -= 21;
  int n = (int)s.m.size();
  return i < n ? &s.m[i] : &s.dm[i - n];
}
// every field in turn holds every value while all the others hold different ones
template <typename P, int N>
static void fields(mc::Run& r) {
  ref::State s;
  s.m.assign(N, 0); s.dm.assign(N, 0);
  for (int i = 0; i < 21 + 2 * N; i++) *field(s, i) = 1.25 + 0.5 * i;
  int f = r.choose(21 + 2 * N, "field"), g = r.choose(21 + 2 * N, "second field");
  *field(s, f) = (P)r.pick(values<P>(), "value");
  *field(s, g) = (P)-7.0625;
  s.q = r.pick(attitudes(), "attitude");
  int format = r.choose(3, "format");
  r.step();
  row_of<P, N>(r, put<P, N>(s), format);
  r.obs_tag(f * 100 + g); obs_state(r, s); r.state();
}
// attitudes all around
template <typename P>
static void angles(mc::Run& r) {
  std::vector<double> ra, pa;
  for (int i = -9; i <= 9; i++) ra.push_back(i * M_PI / 9 * 0.999);
  for (int i = -7; i <= 7; i++) pa.push_back(i * 0.22);
  double ro = r.pick(ra, "roll"), pi = r.pick(pa, "pitch"), ya = r.pick(ra, "yaw");
  ref::State s;
  s.m.assign(4, 1); s.dm.assign(4, 2);
  s.q = ref::rpy(ro, pi, ya);
  int neg = r.choose(3, "sign and scale");
  double k = neg == 0 ? 1 : neg == 1 ? -1 : 1.5;
  s.q = {k * s.q.w, k * s.q.x, k * s.q.y, k * s.q.z};
  r.step();
  auto x = put<P, 4>(s);
  auto a = parse(r, write(x, 1));
  r.require(a.size() == 32, "number of columns");
  const double tol = sizeof(P) == 4 ? 1e-4 : 1e-9;
  r.say([&] { return "roll pitch yaw " + mc::num(ro) + " " + mc::num(pi) + " " + mc::num(ya) + " written as " + mc::num(a[3]) + " " + mc::num(a[4]) + " " + mc::num(a[5]); });
  r.near(std::remainder(a[3] - ro, 2 * M_PI), 0, "roll column", tol); r.near(a[4], pi, "pitch column", tol); r.near(std::remainder(a[5] - ya, 2 * M_PI), 0, "yaw column", tol);
  r.require(std::fabs(a[3]) <= M_PI + 1e-6 && std::fabs(a[5]) <= M_PI + 1e-6, "angle range");
  // odometry with the same attitude
  imu::InertialOdometry<P> o((P)1, eq<P>(ref::qunit(s.q)));
  auto b = parse(r, write(o, 1));
  r.require(b.size() == 15, "number of columns of the odometry");
  r.near(std::remainder(b[3] - ro, 2 * M_PI), 0, "odometry roll column", tol); r.near(b[4], pi, "odometry pitch column", tol); r.near(std::remainder(b[5] - ya, 2 * M_PI), 0, "odometry yaw column", tol);
  r.obs(a[3]); r.obs(a[4]); r.obs(a[5]); r.state();
}
template <typename P>
static void odo_row(mc::Run& r, const imu::InertialOdometry<P>& o, int format) {
  Sensors z;
  odo_into(z, o);
  Cols c;
  add(c, z.p); add_angles(c, euler(z.q)); add(c, z.v); add(c, z.w); add(c, z.a);
  judge(r, write(o, format), c, format, sizeof(P) == 4, "odometry");
  judge_named(r, printed(format, [&](std::ostream& s) { print_state(s, o); }), name(c, kin_names()), format, sizeof(P) == 4, "labelled odometry");
  Sensors y;
  odo_into(y, o);
  same_odo(r, y, z);
}
template <typename P>
static void odometry(mc::Run& r, int depth) {
  imu::InertialOdometry<P> o((P)r.pick(std::vector<double>{1, 0.3}, "alpha"), eq<P>(r.pick(attitudes(), "attitude")));
  for (int k = 0; k < depth; k++) {
    switch (r.choose(5)) {
      case 0: o.update(e3<P>({0.4, -0.5, 0.6}), e3<P>({1, 2, 3}), (P)0.01); break;
      case 1: o.update(e3<P>({-12, 3, 5}), e3<P>({1e5, 0, -2e-7}), (P)0.1); break;
      case 2: o.reset(); break;
      case 3: o.set_initial_orientation(eq<P>(attitudes()[5])); break;
      case 4: o.update(e3<P>({0.1, 0.2, 0.3}), e3<P>({0, 0, 1e-9}), (P)2); break;
    }
    r.step();
    if (!r.novel()) continue;
    for (int f = 0; f < 3; f++) odo_row(r, o, f);
    Sensors z;
    odo_into(z, o);
    r.obs(z.p); r.obs(flat_q(z.q)); r.state();
  }
}
// rows of a simulator in flight; a log of several rows; writing changes nothing
template <typename P, int N>
static void flights(mc::Run& r, int depth) {
  CtrlSpec c = standard_ctrl(standard());
  SimSpec s = spec(N == 6 ? hexa() : standard(), c);
  if (N == 6) { s.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); s.ctrl.alloc.push_back({0, 0, 1e5, 0, 0, 0}); }
  s.start = flight(r.choose(5, "start"), N);
  if (s.start.q.w == 1) s.start.q = ref::rpy(0.1, 0.2, 0.3);
  Sim<P, N> a(sim_params<P, N>(s)), b(sim_params<P, N>(s));
  a.arm(); b.arm();
  a.enable_floor_collision(0); b.enable_floor_collision(0);
  for (int k = 0; k < depth; k++) {
    int o = r.choose(5);
    for (auto* m : {&a, &b}) {
      switch (o) {
        case 0: m->update_controller((P)0.01); m->update_dynamics((P)0.01); break;
        case 1: m->set_control_mode(multirotor::POSITION); m->set_reference_position(e3<P>({1, 2, 3})); break;
        case 2: m->update_imu((P)0.01); m->update_inertial_odometry((P)0.01); break;
        case 3: m->set_refence_motors_angular_velocity(pattern<P, N>(700, 100)); m->update_controller((P)0.01); m->update_dynamics((P)0.03); break;
        case 4: m->disarm(); m->update_dynamics((P)0.2); break;
      }
    }
    r.step();
    if (!r.novel()) continue;
    for (int f = 0; f < 3; f++) { row_of<P, N>(r, a.get_state(), f); odo_row(r, a.get_inertial_odometry_const(), f); }
    same_all<P, N>(r, a, b);
    std::ostringstream log;
    log << std::setprecision(17) << a.get_state() << "\n" << a.get_inertial_odometry() << "\n" << a.get_dynamics_const().get_state();
    std::string t = log.str(), want = write(a.get_state(), 1) + "\n" + write(a.get_inertial_odometry_const(), 1) + "\n" + write(a.get_state(), 1);
    r.require(t == want, "rows of one log differ from single rows");
    obs_all(r, a); r.state();
  }
}
// any numbers unusual, also not finite
template <typename P, int N>
static void unusual(mc::Run& r) {
  static const double alt[] = {0, -0.0, 1, -1, 1e-7, -1e-3, 0.3, 6.5, -95, 2300, -1e4, 99999.5, 999999.5, 3e5, -7e7, 4294967296.0, 1e-30, -1e30, INFINITY, -INFINITY, NAN};
  ref::State s;
  s.m.assign(N, 0); s.dm.assign(N, 0);
  for (int i = 0; i < 21 + 2 * N; i++) *field(s, i) = 1.25 + 0.5 * i;
  s.q = attitudes()[r.choose(3, "attitude") * 2];
  for (int i = 0; i < 21 + 2 * N; i++) { int k = r.deviate(22); if (k) *field(s, i) = (P)alt[k - 1]; }
  r.step();
  auto x = put<P, N>(s);
  for (int f = 0; f < 3; f += 2) {
    judge(r, write(x, f), join(join(kin(get<P, N>(x)), dyn(get<P, N>(x))), act(get<P, N>(x))), f, sizeof(P) == 4, "state");
  }
  obs_state(r, s); r.state();
}
template <typename P>
static void unusual_odometry(mc::Run& r) {
  auto v = [&](V d, double lim, const char* n) { V o; for (int i = 0; i < 3; i++) o[i] = r.wide(d[i], lim, n); return o; };
  double roll = r.wide(0.2, 10, "roll"), pitch = r.wide(-0.1, 1.4, "pitch"), yaw = r.wide(0.8, 10, "yaw");
  imu::InertialOdometry<P> o((P)r.pick(std::vector<double>{1, 0.3}, "alpha"), eq<P>(ref::rpy(roll, pitch, yaw)));
  for (int k = 0; k < 2; k++) {
    V w = v({0.4, -0.5, 0.6}, 100, "rates"), a = v({1, 2, 9}, 1e8, "acceleration");
    static const double dts[] = {0.01, 1e-5, 0.1, 3};
    o.update(e3<P>(w), e3<P>(a), (P)dts[r.deviate(4)]);
    r.step();
    if (!r.novel()) continue;
    for (int f = 0; f < 3; f++) odo_row(r, o, f);
    Sensors z;
    odo_into(z, o);
    r.obs(z.p); r.obs(flat_q(z.q)); r.state();
  }
}
// the thousandth row is written like the first
static void endurance(mc::Run& r, int len) {
  SimSpec s = spec(standard(), standard_ctrl(standard()));
  s.start = flight(r.choose(3, "start"), 4);
  Sim<> a(sim_params(s)), b(sim_params(s));
  for (auto* m : {&a, &b}) { m->arm(); m->set_control_mode(cmode(5)); m->set_reference_position(e3<double>({-1000, 2, 3})); }
  std::ostringstream log;
  int format = r.choose(2, "format");
  if (format) log << std::setprecision(17);
  for (int k = 0; k < len; k++) {
    for (auto* m : {&a, &b}) { m->update_controller(0.01); m->update_dynamics(0.01); m->update_imu(0.01); m->update_inertial_odometry(0.01); }
    log.str("");
    log << a.get_state() << "," << a.get_inertial_odometry();
    r.step();
    ref::State x = get<double, 4>(b.get_state());
    Sensors z = sensors(b);
    Cols c = join(join(kin(x), dyn(x)), act(x));
    add(c, z.p); add_angles(c, euler(z.q)); add(c, z.v); add(c, z.w); add(c, z.a);
    judge(r, log.str(), c, format, false, "state and odometry");
    obs_state(r, x); r.state();
  }
  same_all<double, 4>(r, a, b);
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    std::string b = "every pair of fields x values x 8 attitudes x 3 formats";
    ex.explore("fields4", b, 0, fields<double, 4>);
    ex.explore("fields1", b + ", one rotor", 0, fields<double, 1>);
    ex.explore("fields6_f", b + ", six rotors, single precision", 0, fields<float, 6>);
    ex.explore("fields8", b + ", eight rotors", 0, [t](mc::Run& r) { if (t) fields<double, 8>(r); else fields<double, 3>(r); });
    ex.explore("angles", "19 x 15 x 19 attitudes, sign and scale of the quaternion", 0, angles<double>);
    ex.explore("angles_f", "the same in single precision", 0, angles<float>);
    int bu = t ? 3 : 2;
    ex.explore("unusual", "attitudes, any " + std::to_string(bu) + " numbers unusual or not finite", bu, unusual<double, 4>);
    ex.explore("unusual_f", "the same, two rotors, single precision", 2, unusual<float, 2>);
    ex.explore("unusual_odometry", "any 2 numbers of unusual sign or size", 2, unusual_odometry<double>);
    ex.explore("endurance", "starts x formats, 5000 rows", 0, [](mc::Run& r) { endurance(r, 5000); });
    ex.explore("odometry", "filters x attitudes x all sequences of 5 calls", 0, [t](mc::Run& r) { odometry<double>(r, t ? 6 : 4); });
    ex.explore("odometry_f", "the same in single precision", 0, [](mc::Run& r) { odometry<float>(r, 3); });
    ex.explore("flights", "starts x all sequences of 5 operations", 0, [t](mc::Run& r) { flights<double, 4>(r, t ? 6 : 5); });
    ex.explore("flights_f6", "the same, six rotors, single precision", 0, [](mc::Run& r) { flights<float, 6>(r, 4); });
  });
}
