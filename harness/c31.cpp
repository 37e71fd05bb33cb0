// C31: elementwise helpers, on whole value ranges, every length and position, fixed and dynamic vectors.
#include <cstring>
#include <limits>
#include "sim.hpp"
using namespace qm;
namespace mu = multirotor::utils;
template <typename P, int N> using Vec = Eigen::Matrix<P, N, 1>;
template <typename P> static P tiny() { return std::numeric_limits<P>::min(); }
template <typename P> static double rel() { return sizeof(P) == 4 ? 1e-6 : 1e-15; }
// value checks with a relative tolerance; results below the normal range may be flushed
template <typename P>
static void close(mc::Run& r, P a, P e, const char* what) {
  if (a == e) return;
  if (std::fabs(a) <= tiny<P>() && std::fabs(e) <= tiny<P>() && (a == 0 || e == 0 || (a < 0) == (e < 0))) return;
  double d = std::fabs((double)a - (double)e);
  r.require(d <= rel<P>() * std::fabs((double)e), what);
}
template <typename P> static P rsq(P x) { return x < 0 ? -(x * x) : x * x; }
template <typename P> static P rrt(P x) { return x < 0 ? -std::sqrt(-x) : std::sqrt(x); }
template <typename V>
static void judge(mc::Run& r, const V& x, float lo, float hi, bool exact_root = true) {
  using P = typename V::Scalar;
  V x0 = x;
  V s = mu::squared_keep_sign(x), q = mu::sqrt_keep_sign(x), qi = indi_controller::sqrt_keep_sign(x), ns = mu::squared_keep_sign(V(-x)), nq = mu::sqrt_keep_sign(V(-x)), c = x;
  V back = mu::sqrt_keep_sign(s), forth = mu::squared_keep_sign(q);
  mu::clamp_vector(c, lo, hi);
  r.require(s.size() == x.size() && q.size() == x.size() && qi.size() == x.size() && c.size() == x.size(), "size of the result");
  for (int i = 0; i < x.size(); i++) {
    P v = x[i];
    r.require(x0[i] == v, "argument changed");
    if (r.describing()) r.say([&] { return "x " + mc::num(v) + " square " + mc::num(s[i]) + " root " + mc::num(q[i]) + " " + mc::num(qi[i]) + " clamped to [" + mc::num(lo) + ", " + mc::num(hi) + "] " + mc::num(c[i]); });
    close<P>(r, s[i], rsq(v), "square");
    if (v == 0) { r.require(s[i] == 0 && q[i] == 0 && qi[i] == 0, "zero"); }
    bool sub = std::fabs(v) < tiny<P>();  // single precision roots of denormal numbers may be flushed
    if (!sub) {
      close<P>(r, q[i], rrt(v), "square root");
      close<P>(r, qi[i], rrt(v), "square root of the controller");
      r.require(nq[i] == -q[i], "square root is odd");
      if (std::fabs(v) <= std::numeric_limits<P>::max()) {
        r.require(std::fabs((double)forth[i] - (double)v) <= 4 * rel<P>() * std::fabs((double)v), "square of the root");
        if (std::fabs(s[i]) >= tiny<P>() && std::fabs(s[i]) <= std::numeric_limits<P>::max()) r.require(std::fabs((double)back[i] - (double)v) <= 4 * rel<P>() * std::fabs((double)v), "root of the square");
      }
    }
    r.require(ns[i] == -s[i], "square is odd");
    if (v < (P)lo) r.require(c[i] == (P)lo, "clamped below");
    else if (v > (P)hi) r.require(c[i] == (P)hi, "clamped above");
    else r.require(c[i] == v, "inner value changed");
    if (i > 0 && x[i - 1] <= v) r.require(s[i - 1] <= s[i], "square is monotonic");
    if (i > 0 && x[i - 1] <= v && !sub && std::fabs(x[i - 1]) >= tiny<P>()) r.require((double)q[i - 1] <= (double)q[i] + 2 * rel<P>() * std::fabs((double)q[i]), "square root is monotonic");
  }
  (void)exact_root;
}
static const std::vector<std::pair<float, float>>& limits() {
  static const std::vector<std::pair<float, float>> l = {{-1.f, 1.f}, {0.f, 2200.f}, {-0.1f, 0.3f}, {5.f, 5.f}, {-1e30f, 1e-3f}, {-2500.f, -10.f}};
  return l;
}
template <typename P>
static std::vector<P> lattice() {
  std::vector<P> v = {0, (P)-0.0};
  for (double b : {1e-300, 1e-160, 1e-30, 1e-12, 1e-5, 0.003, 0.1, 0.3, 1.0, 1.5, 2.0, 7.0, 1133.0, 2200.0, 1e6, 3.7e15, 1e150, 1e300}) {
    if (sizeof(P) == 4 && (b < 1e-30 || b > 1e16)) continue;
    v.push_back((P)b); v.push_back((P)-b);
    v.push_back(std::nextafter((P)b, (P)0));
  }
  for (auto& l : limits()) { v.push_back((P)l.first); v.push_back(std::nextafter((P)l.second, (P)1e9)); v.push_back((P)l.second); }
  return v;
}
template <typename P, int N>
static void fixed(mc::Run& r) {
  static const std::vector<P> l = lattice<P>();
  Vec<P, N> x;
  auto lim = r.pick(limits(), "limits");
  int at = r.choose(N, "position");
  P v = r.pick(l, "value"), rest = r.pick(std::vector<P>{(P)0.5, (P)-3, 0}, "others");
  x.setConstant(rest);
  x[at] = v;
  r.step();
  judge(r, x, lim.first, lim.second);
  r.obs(v); r.obs(rest); r.obs_tag(at * 10 + N); r.state();
}
template <typename P>
static void dynamic(mc::Run& r, int maxlen, bool longer = false) {
  static const int longs[] = {7, 8, 9, 15, 16, 17, 33, 65, 130};
  static const std::vector<P> l = lattice<P>();
  int n = r.choose(maxlen + 1, "length");
  if (longer) n = longs[n];
  Vec<P, Eigen::Dynamic> x(n);
  auto lim = r.pick(limits(), "limits");
  if (n == 0) { r.step(); judge(r, x, lim.first, lim.second); return; }
  int at = longer ? std::vector<int>{0, n / 2, n - 2, n - 1}[r.choose(4, "position")] : r.choose(n, "position");
  x.setConstant((P)r.pick(std::vector<double>{0.25, -40, 0}, "others"));
  x[at] = r.pick(l, "value");
  x[n - 1 - at] = r.pick(l, "mirrored value");
  r.step();
  judge(r, x, lim.first, lim.second);
  for (int i = 0; i < n; i++) r.obs((double)x[i]);
  r.obs_tag(n); r.state();
}
// ranges of all single precision numbers: one sign, exponent and block of mantissas per execution
static void floats(mc::Run& r, uint32_t stride) {
  uint32_t se = (uint32_t)r.choose(512, "sign and exponent"), blk = (uint32_t)r.choose(4, "block");
  auto lim = limits()[(se + blk) % limits().size()];
  uint32_t off = (se * 7919 + blk * 104729) % stride;
  Vec<float, 8> x;
  int n = 0;
  for (uint32_t m = off; m < (1u << 21); m += stride) {
    uint32_t bits = (se << 23) | (blk << 21) | m;
    float f;
    std::memcpy(&f, &bits, 4);
    if (f != f) continue;
    if (std::isinf(f)) continue;
    x[n++] = f;
    if (n == 8) { judge(r, x, lim.first, lim.second); n = 0; r.step(); }
  }
  r.obs_tag(se * 4 + blk); r.state();
}
// both precisions, all exponents: powers and their neighbours
static void doubles(mc::Run& r, int per) {
  uint64_t se = (uint64_t)r.choose(4096, "sign and exponent");
  auto lim = limits()[se % limits().size()];
  Vec<double, 4> x;
  for (int k = 0; k < per; k++) {
    for (int j = 0; j < 4; j++) {
      uint64_t bits = (se << 52) | (k < 2 ? (uint64_t)(k ? 0xfffffffffffffull - j : j) : ((0x9e3779b97f4a7c15ull * (k * 4 + j)) >> 12));
      double f;
      std::memcpy(&f, &bits, 8);
      x[j] = (f != f || std::isinf(f)) ? 1 : f;
    }
    judge(r, x, lim.first, lim.second);
    r.step();
  }
  r.obs_tag(se); r.state();
}
int main(int argc, char** argv) {
  return mc::main(argc, argv, [](mc::Explorer& ex) {
    bool t = ex.thorough;
    ex.explore("fixed1", "length 1", 0, fixed<double, 1>);
    ex.explore("fixed3", "length 3, value lattice x position x limits", 0, fixed<double, 3>);
    ex.explore("fixed4", "length 4", 0, fixed<double, 4>);
    ex.explore("fixed6", "length 6", 0, fixed<double, 6>);
    ex.explore("fixed3_f", "length 3, single precision", 0, fixed<float, 3>);
    ex.explore("fixed5_f", "length 5, single precision", 0, fixed<float, 5>);
    ex.explore("fixed8_f", "length 8, single precision", 0, fixed<float, 8>);
    ex.explore("dynamic", "all lengths up to a bound, pairs of lattice values", 0, [t](mc::Run& r) { dynamic<double>(r, t ? 12 : 6); });
    ex.explore("longer", "lengths up to 130, pairs of lattice values", 0, [](mc::Run& r) { dynamic<double>(r, 8, true); });
    ex.explore("longer_f", "the same in single precision", 0, [](mc::Run& r) { dynamic<float>(r, 8, true); });
    ex.explore("dynamic_f", "the same in single precision", 0, [t](mc::Run& r) { dynamic<float>(r, t ? 12 : 6); });
    ex.explore("floats", t ? "every finite single precision number" : "every 61st single precision number", 0, [t](mc::Run& r) { floats(r, t ? 1 : 61); });
    ex.explore("doubles", "every sign and exponent of double precision", 0, [t](mc::Run& r) { doubles(r, t ? 4000 : 100); });
  });
}
