// Stateless model checker for sequential code.
//
// A scenario is a function that builds fresh objects of the code under test and drives them, taking
// every decision (which call, which argument, which configuration) from Run::choose / Run::deviate.
// The explorer enumerates ALL decision sequences (choose: every alternative; deviate: every placement
// of at most `budget` departures from alternative 0), re-executing the scenario from scratch for each,
// so no part of the code under test needs to be copied or rolled back, and a list of decisions is a
// complete, replayable counterexample. The oracle runs inside the scenario, on every step.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif

namespace mc {

struct Violation {
  std::string msg;
};
struct Skip {};  // the subtree belongs to another worker

inline std::string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}

class HashSet {  // open addressing set of 64-bit fingerprints
public:
  HashSet() : t_(1 << 12, 0) {}
  void insert(uint64_t h) {
    if (h == 0) h = 1;
    if (n_ * 2 > t_.size()) {
      if (t_.size() >= (1u << 25)) { full_ = true; return; }
      grow();
    }
    put(h);
  }
  std::vector<uint64_t> values() const {
    std::vector<uint64_t> v;
    for (auto x : t_) if (x) v.push_back(x);
    return v;
  }
  bool full() const { return full_; }

private:
  void put(uint64_t h) {
    size_t m = t_.size() - 1, i = (h * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (t_[i]) {
      if (t_[i] == h) return;
      i = (i + 1) & m;
    }
    t_[i] = h;
    n_++;
  }
  void grow() {
    std::vector<uint64_t> old;
    old.swap(t_);
    t_.assign(old.size() * 2, 0);
    n_ = 0;
    for (auto x : old) if (x) put(x);
  }
  std::vector<uint64_t> t_;
  size_t n_  = 0;
  bool full_ = false;
};

struct Choice {
  int n, v;
  bool dev;
};

// State shared with the signal handlers of a worker
struct Live {
  std::string scenario;
  std::vector<Choice>* choices = nullptr;
  volatile uint64_t progress   = 0;
  std::string violation_file;
};
inline Live& live() {
  static Live l;
  return l;
}

class Explorer;

class Run {
public:
  Run(Explorer& ex, std::vector<Choice>& c, int fresh, int budget, bool describe)
      : ex_(ex), c_(c), fresh_(fresh), budget_(budget), describe_(describe) {}

  // All alternatives 0..n-1 are explored.
  int choose(int n, const char* label = nullptr) { return take(n, false, label); }
  // Alternative 0 is the default; taking another one costs one unit of the deviation budget.
  int deviate(int n, const char* label = nullptr) { return take(n, true, label); }
  template <typename T>
  const T& pick(const std::vector<T>& v, const char* label = nullptr) {
    return v[choose((int)v.size(), label)];
  }
  // A number with a usual value and unusual ones of every sign and size up to `lim` (each costs a deviation)
  double wide(double usual, double lim = 1e4, const char* label = nullptr) {
    static const double alt[] = {0, 1, -1, 1e-7, -1e-3, 0.3, -3.2, 6.5, 20, -95, 1e3, -1e4, 3e5, -7e7};
    int n = 0;
    for (double a : alt) n += std::fabs(a) <= lim;
    int k = deviate(n + 2);
    double v = k == 0 ? usual : k == 1 ? -usual : alt[k - 2];
    if (describe_ && label && k) text_.push_back(std::string(label) + "=" + num(v));
    return v;
  }
  // The same value again, or a value hardly different (costs a deviation)
  double nearby(double v, const char* label = nullptr) {
    static const double rel[] = {0, 1e-9, -1e-6, 2e-4, -4e-3};
    int k = deviate(5);
    if (!k) return v;
    double x = v + rel[k] * (v == 0 ? 1 : std::fabs(v));
    if (describe_ && label) text_.push_back(std::string(label) + "=" + num(x));
    return x;
  }
  bool flag(const char* label = nullptr) { return choose(2, label) == 1; }

  // False while re-executing the prefix shared with the previous execution, already judged there
  bool novel() const { return used > fresh_ || describe_; }
  // One transition of the system under test has been executed and is about to be judged.
  void step();
  // Fingerprint of what is observed
  void obs(double v) {
    uint64_t u;
    if (v == 0) v = 0;  // -0 == 0
    memcpy(&u, &v, 8);
    h_ = mix(h_, u);
  }
  template <typename V>
  auto obs(const V& v) -> decltype(v.size(), void()) {
    for (int i = 0; i < (int)v.size(); i++) obs((double)v[i]);
  }
  void obs_tag(uint64_t t) { h_ = mix(h_, t); }
  // Record the state reached (fingerprint of everything observed since the last call)
  void state();

  bool describing() const { return describe_; }
  template <typename F>
  void say(F f) {
    if (describe_) text_.push_back(f());
  }
  const std::vector<std::string>& text() const { return text_; }

  [[noreturn]] void fail(const std::string& what) { throw Violation{what}; }
  void require(bool ok, const char* what) {
    checks_++;
    if (!ok) fail(what);
  }
  // |a-e| <= tol * (scale + |e|)
  void near(double a, double e, const char* what, double tol = 1e-9, double scale = 1.0) {
    checks_++;
    double d = std::fabs(a - e), lim = tol * (scale + std::fabs(e));
    if (d <= lim) {
      if (d > 0) note_err(d / lim);
      return;
    }
    if (a == e) return;  // equal infinities
    if (std::isnan(a) && std::isnan(e)) return;
    fail(std::string(what) + ": got " + num(a) + ", expected " + num(e));
  }
  template <typename A, typename B>
  void near_v(const A& a, const B& e, int n, const char* what, double tol = 1e-9, double scale = 1.0) {
    double m = scale;
    for (int i = 0; i < n; i++) m = std::max(m, std::fabs((double)e[i]));
    for (int i = 0; i < n; i++) {
      checks_++;
      double d = std::fabs((double)a[i] - (double)e[i]);
      if (d <= tol * (scale + m)) {
        if (d > 0) note_err(d / (tol * (scale + m)));
        continue;
      }
      if ((double)a[i] == (double)e[i]) continue;
      if (std::isnan((double)a[i]) && std::isnan((double)e[i])) continue;
      fail(std::string(what) + "[" + std::to_string(i) + "]: got " + num(a[i]) + ", expected " +
           num(e[i]));
    }
  }
  // Exact equality (+0 == -0, NaN == NaN)
  void same(double a, double e, const char* what) {
    checks_++;
    if (a == e || (std::isnan(a) && std::isnan(e))) return;
    fail(std::string(what) + ": got " + num(a) + ", expected exactly " + num(e));
  }
  template <typename A, typename B>
  void same_v(const A& a, const B& e, int n, const char* what) {
    for (int i = 0; i < n; i++) {
      checks_++;
      double x = a[i], y = e[i];
      if (x == y || (std::isnan(x) && std::isnan(y))) continue;
      fail(std::string(what) + "[" + std::to_string(i) + "]: got " + num(x) + ", expected exactly " +
           num(y));
    }
  }
  void finite(double a, const char* what) {
    checks_++;
    if (!std::isfinite(a)) fail(std::string(what) + ": not finite (" + num(a) + ")");
  }
  // A known finding, listed in known_findings.json, was met at this point
  void known(const char* id);
  bool thorough() const;

  int used = 0;     // choices consumed
  int devs = 0;     // deviations taken
  long checks_ = 0;

private:
  void note_err(double r);
  int take(int n, bool dev, const char* label);
  Explorer& ex_;
  std::vector<Choice>& c_;
  int fresh_, budget_;
  bool describe_;
  std::vector<std::string> text_;
  uint64_t h_     = 0x1234567;
  uint64_t prod_  = 1;
  bool decided_   = false;
  friend class Explorer;
};

struct Stats {
  uint64_t traces = 0, transitions = 0, checks = 0;
  double maxerr = 0;
  std::map<std::string, uint64_t> known;
  struct Scen {
    std::string name, bound;
    uint64_t traces = 0, transitions = 0;
    int max_choices = 0;
  };
  std::vector<Scen> scen;
  std::vector<std::string> samples;
  bool capped = false;
};

class Explorer {
public:
  bool thorough   = false;
  int workers     = 1;
  int worker      = 0;
  bool replaying  = false;
  std::string replay_scenario;
  std::vector<int> replay_choices;
  Stats st;
  HashSet states;
  bool violated = false;
  bool counting = true;

  using Body = std::function<void(Run&)>;

  // Enumerate every decision sequence of `body` with at most `budget` deviations.
  void explore(const std::string& name, const std::string& bound, int budget, const Body& body) {
    if (violated) return;
    if (!only().empty() && name.find(only()) == std::string::npos) return;
    if (replaying) {
      if (name == replay_scenario) replay(name, budget, body);
      return;
    }
    Stats::Scen sc;
    sc.name = name;
    sc.bound = bound + (budget > 0 ? "; all placements of up to " + std::to_string(budget) + " deviations" : "");
    uint64_t t0 = st.transitions;
    live().scenario = name;
    int nsample     = 0;
    // In deviation mode explore 0, 1, .. budget deviations so that the first counterexample has the fewest
    for (int b = 0; b <= budget; b++) {
      std::vector<Choice> c;
      int fresh = -1;
      counting  = b == budget;  // the last pass contains all the others
      for (;;) {
        live().choices = &c;
        Run run(*this, c, fresh, b, false);
        bool mine = true;
        try {
          body(run);
          if (!run.decided_) mine = owner(c);
        } catch (const Skip&) {
          mine = false;
        } catch (const Violation& v) {
          report(name, b, body, c, run.used, v.msg);
          return;
        } catch (const std::exception& e) {
          report(name, b, body, c, run.used, std::string("unexpected exception: ") + e.what());
          return;
        }
        c.resize(run.used);
        if (mine && counting) {
          sc.traces++;
          sc.max_choices = std::max(sc.max_choices, run.used);
          if (worker == 0 && st.samples.size() < 8 && nsample < 1 && sc.traces == 23) {
            nsample++;
            sample(name, b, body, c);
          }
        }
        if (counting) st.checks += run.checks_;
        // advance
        int i = run.used - 1;
        for (; i >= 0; i--) {
          int devs_before = 0;
          if (c[i].dev) {
            for (int j = 0; j < i; j++) devs_before += c[j].dev && c[j].v != 0;
            if (c[i].v == 0 && devs_before >= b) continue;
          }
          if (c[i].v + 1 < c[i].n) break;
        }
        if (i < 0) break;
        c[i].v++;
        c.resize(i + 1);
        fresh = i;
      }
    }
    sc.transitions = st.transitions - t0;
    st.traces += sc.traces;
    st.scen.push_back(sc);
  }

  static std::string& only() {
    static std::string s;
    return s;
  }
  static std::string& violation_path() {
    static std::string s;
    return s;
  }

private:
  friend class Run;
  bool owner(const std::vector<Choice>& c) const {
    uint64_t h = 7;
    for (auto& x : c) h = mix(h, x.v + 1);
    return (int)(h % workers) == worker;
  }
  void sample(const std::string& name, int b, const Body& body, const std::vector<Choice>& c0) {
    std::vector<Choice> c = c0;
    Stats keep            = st;
    HashSet keep_states;
    std::swap(keep_states, states);
    Run run(*this, c, 1 << 30, b, true);
    std::string s = name + " choices=[";
    for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + std::to_string(c[i].v);
    s += "]";
    try {
      body(run);
    } catch (...) {
    }
    int k = 0;
    for (auto& t : run.text()) {
      if (k++ > 12 || s.size() > 1200) { s += " | ..."; break; }
      s += " | " + t;
    }
    st = keep;
    std::swap(keep_states, states);
    st.samples.push_back(s);
  }
  void report(const std::string& name, int b, const Body& body, std::vector<Choice> c, int used,
              const std::string& msg) {
    violated = true;
    c.resize(used);
    std::string again = "not reproduced when replayed in the same process";
    std::vector<std::string> text;
    {
      std::vector<Choice> c2 = c;
      Run run(*this, c2, 1 << 30, b, true);
      try {
        body(run);
      } catch (const Violation& v) {
        again = v.msg;
      } catch (const std::exception& e) {
        again = std::string("unexpected exception: ") + e.what();
      } catch (...) {
      }
      text = run.text();
    }
    std::ofstream f(violation_path());
    f << "scenario: " << name << "\nchoices:";
    for (auto& x : c) f << " " << x.v;
    f << "\nmessage: " << msg << "\nreplayed: " << again << "\n";
    for (auto& t : text) f << "step: " << t << "\n";
    f.close();
  }
  void replay(const std::string& name, int budget, const Body& body) {
    (void)budget;
    std::vector<Choice> c;
    for (int v : replay_choices) c.push_back({1 << 30, v, false});
    Run run(*this, c, 1 << 30, 1 << 30, true);
    std::string res = "no violation";
    try {
      body(run);
    } catch (const Violation& v) {
      res = "VIOLATION " + v.msg;
      violated = true;
    } catch (const std::exception& e) {
      res = std::string("VIOLATION unexpected exception: ") + e.what();
      violated = true;
    }
    FILE* o = fopen(violation_path().c_str(), "w");
    for (auto& t : run.text()) fprintf(o, "%s\n", t.c_str());
    fprintf(o, "%s\n", res.c_str());
    fclose(o);
  }
};

inline int Run::take(int n, bool dev, const char* label) {
  int v;
  if (used < (int)c_.size()) {
    v = c_[used].v;
    if (c_[used].n == (1 << 30)) {  // replay of a recorded list
      if (v >= n) throw Violation{"replay diverged: choice out of range"};
      c_[used].n   = n;
      c_[used].dev = dev;
    } else if (c_[used].n != n || c_[used].dev != dev) {
      throw Violation{"replay diverged: the same decisions led to another decision point"};
    }
  } else {
    c_.push_back({n, 0, dev});
    v = 0;
  }
  used++;
  if (dev && v != 0) devs++;
  if (describe_ && label) text_.push_back(std::string(label) + "=" + std::to_string(v));
  if (!describe_ && !decided_ && ex_.workers > 1) {
    bool split = false;
    if (dev) split = v != 0;
    else {
      prod_ *= n;
      split = prod_ >= (uint64_t)(16 * ex_.workers);
    }
    if (split) {
      decided_   = true;
      uint64_t h = 7;
      for (int i = 0; i < used; i++) h = mix(h, c_[i].v + 1);
      if ((int)(h % ex_.workers) != ex_.worker) throw Skip();
    }
  }
  return v;
}
inline void Run::step() {
  live().progress = live().progress + 1;
  if (ex_.counting && used > fresh_ && !describe_ && (decided_ || ex_.workers == 1 || ex_.worker == 0)) ex_.st.transitions++;
}
inline void Run::state() {
  if (!describe_) ex_.states.insert(h_);
  h_ = 0x1234567;
}
inline void Run::known(const char* id) {
  if (!describe_) ex_.st.known[id]++;
}
inline bool Run::thorough() const { return ex_.thorough; }
inline void Run::note_err(double r) {
  if (r > ex_.st.maxerr) ex_.st.maxerr = r;
}

// ---------------------------------------------------------------- process set-up
inline void crash(int sig, const char* what) {
  // Not async-signal-safe, but the process is lost anyway; the parent copes with a missing file.
  std::ofstream f(Explorer::violation_path());
  f << "scenario: " << live().scenario << "\nchoices:";
  if (live().choices) for (auto& x : *live().choices) f << " " << x.v;
  f << "\nmessage: " << what << " (signal " << sig << ")\nreplayed: see message\n";
  f.close();
  _exit(3);
}
inline void on_crash(int sig) {
  signal(sig, SIG_DFL);
  crash(sig, "the code under test crashed");
}
inline void on_tick(int sig) {
  static uint64_t last = ~0ull;
  static int idle      = 0;
  uint64_t p           = live().progress;
  idle                 = p == last ? idle + 1 : 0;
  last                 = p;
  if (idle >= 6) crash(sig, "the code under test does not return (30 s of CPU time in one step)");
}

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') o += '\\', o += ch;
    else if ((unsigned char)ch < 32) o += ' ';
    else o += ch;
  }
  return o + "\"";
}

inline int main(int argc, char** argv, const std::function<void(Explorer&)>& body) {
  std::string out = "result.json", dir = ".";
  Explorer proto;
  proto.workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--dir") dir = argv[++i];
    else if (a == "--tier") proto.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--workers") proto.workers = atoi(argv[++i]);
    else if (a == "--only") Explorer::only() = argv[++i];
    else if (a == "--replay") {
      proto.replaying       = true;
      proto.replay_scenario = argv[++i];
      while (i + 1 < argc) proto.replay_choices.push_back(atoi(argv[++i]));
    }
  }
  if (proto.replaying) {
    Explorer::violation_path() = out;
    proto.workers              = 1;
    body(proto);
    return proto.violated ? 1 : 0;
  }
  std::vector<pid_t> pids;
  for (int w = 0; w < proto.workers; w++) {
    std::string base = dir + "/w" + std::to_string(w);
    unlink((base + ".viol").c_str());
    unlink((base + ".stat").c_str());
    pid_t p = fork();
    if (p == 0) {
      Explorer ex = proto;
      ex.worker   = w;
      Explorer::violation_path() = base + ".viol";
      std::cout.setstate(std::ios::badbit);  // the code under test prints diagnostics
      std::cerr.setstate(std::ios::badbit);
      static char stack[1 << 16];
      stack_t ss{};
      ss.ss_sp   = stack;
      ss.ss_size = sizeof stack;
      sigaltstack(&ss, nullptr);
      struct sigaction sa {};
      sa.sa_handler = on_crash;
      sa.sa_flags   = SA_ONSTACK;
#if defined(__SANITIZE_ADDRESS__)
      __sanitizer_set_death_callback([] { crash(0, "memory error or undefined behaviour, see the sanitizer report"); });
#else
      for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
#endif
      struct sigaction st {};
      st.sa_handler = on_tick;
      st.sa_flags   = SA_RESTART | SA_ONSTACK;
      sigaction(SIGPROF, &st, nullptr);
      itimerval it{{5, 0}, {5, 0}};
      setitimer(ITIMER_PROF, &it, nullptr);
      body(ex);
      std::ofstream f(base + ".stat", std::ios::binary);
      auto u64 = [&](uint64_t v) { f.write((char*)&v, 8); };
      auto str = [&](const std::string& s) { u64(s.size()); f.write(s.data(), s.size()); };
      u64(ex.st.traces); u64(ex.st.transitions); u64(ex.st.checks);
      u64(ex.states.full());
      f.write((char*)&ex.st.maxerr, 8);
      u64(ex.st.scen.size());
      for (auto& s : ex.st.scen) { str(s.name); str(s.bound); u64(s.traces); u64(s.transitions); u64(s.max_choices); }
      u64(ex.st.samples.size());
      for (auto& s : ex.st.samples) str(s);
      u64(ex.st.known.size());
      for (auto& k : ex.st.known) { str(k.first); u64(k.second); }
      auto v = ex.states.values();
      u64(v.size());
      f.write((char*)v.data(), v.size() * 8);
      f.close();
      _exit(ex.violated ? 3 : 0);
    }
    pids.push_back(p);
  }
  bool bad = false, broken = false;
  std::string brokenmsg;
  for (int w = 0; w < (int)pids.size(); w++) {
    int status = 0;
    waitpid(pids[w], &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3) { bad = true; continue; }
    broken = true;
    brokenmsg = WIFSIGNALED(status) ? "worker killed by signal " + std::to_string(WTERMSIG(status))
                                    : "worker exited with " + std::to_string(WEXITSTATUS(status));
  }
  Stats tot;
  std::vector<uint64_t> all;
  std::map<std::string, Stats::Scen> scen;
  std::vector<std::string> order;
  if (!broken)
    for (int w = 0; w < proto.workers; w++) {
      std::ifstream f(dir + "/w" + std::to_string(w) + ".stat", std::ios::binary);
      if (!f) continue;
      auto u64 = [&]() { uint64_t v = 0; f.read((char*)&v, 8); return v; };
      auto str = [&]() { std::string s(u64(), 0); f.read(&s[0], s.size()); return s; };
      tot.traces += u64(); tot.transitions += u64(); tot.checks += u64();
      tot.capped |= u64() != 0;
      double me; f.read((char*)&me, 8); tot.maxerr = std::max(tot.maxerr, me);
      uint64_t n = u64();
      for (uint64_t i = 0; i < n; i++) {
        Stats::Scen s;
        s.name = str(); s.bound = str(); s.traces = u64(); s.transitions = u64(); s.max_choices = (int)u64();
        auto it = scen.find(s.name);
        if (it == scen.end()) { scen[s.name] = s; order.push_back(s.name); }
        else { it->second.traces += s.traces; it->second.transitions += s.transitions; it->second.max_choices = std::max(it->second.max_choices, s.max_choices); }
      }
      n = u64();
      for (uint64_t i = 0; i < n; i++) { tot.samples.push_back(str()); }
      n = u64();
      for (uint64_t i = 0; i < n; i++) { auto k = str(); tot.known[k] += u64(); }
      n = u64();
      size_t o = all.size();
      all.resize(o + n);
      f.read((char*)(all.data() + o), n * 8);
    }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  std::ofstream f(out);
  f << "{\"traces\": " << tot.traces << ", \"transitions\": " << tot.transitions
    << ", \"states\": " << all.size() << ", \"oracle_comparisons\": " << tot.checks
    << ", \"state_set_capped\": " << (tot.capped ? "true" : "false")
    << ", \"worst_error_over_tolerance\": " << num(tot.maxerr) << ",\n \"scenarios\": [";
  bool first = true;
  for (auto& nme : order) {
    auto& s = scen[nme];
    f << (first ? "" : ",\n  ") << "{\"name\": " << json_str(s.name) << ", \"bound\": " << json_str(s.bound)
      << ", \"executions\": " << s.traces << ", \"steps\": " << s.transitions << ", \"max_decisions\": " << s.max_choices << "}";
    first = false;
  }
  f << "],\n \"known\": {";
  first = true;
  for (auto& k : tot.known) { f << (first ? "" : ", ") << json_str(k.first) << ": " << k.second; first = false; }
  f << "},\n \"samples\": [";
  first = true;
  for (auto& s : tot.samples) { f << (first ? "" : ",\n  ") << json_str(s); first = false; }
  f << "],\n \"violated\": " << (bad ? "true" : "false") << ", \"broken\": " << (broken ? json_str(brokenmsg) : "null") << "}\n";
  f.close();
  return broken ? 2 : bad ? 1 : 0;
}

}  // namespace mc
