// Bounded exhaustive exploration of real code.
//
// A harness body asks for every input, operation and environment answer with
// mc::choose(n); the engine runs the body once for every choice vector, depth
// first, so that the whole space described by the body is enumerated.  The body
// drives the real code and compares it with a reference model (MC_EQ, ...).
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

struct Violation {
  std::string key, msg;
};
struct Skip {};       // this shard does not own the execution
struct Abandon {};    // the harness rejects this choice vector (not counted)

struct Harness {
  const char* name;
  void (*fn)();
};
inline std::vector<Harness>& harnesses() {
  static std::vector<Harness> h;
  return h;
}
struct Registrar {
  Registrar(const char* n, void (*f)()) { harnesses().push_back({n, f}); }
};
#define MC_HARNESS(NAME)                                        \
  static void mc_body_##NAME();                                 \
  static ::mc::Registrar mc_reg_##NAME(#NAME, mc_body_##NAME);  \
  static void mc_body_##NAME()

struct Point {
  int choice, n;
};

struct Shared {  // survives a crash of the process
  volatile int64_t heartbeat;
  volatile int32_t depth;
  volatile int32_t harness;
  volatile int32_t choices[4096];
};

struct Engine {
  std::vector<Point> path;
  size_t pos = 0;
  bool replay = false, thorough = false, verbose = false;
  bool free_run = false;  // setup code outside exploration
  int shard = 0, nshards = 1, shard_depth = 2;
  int64_t shard_counter = 0;
  bool mine = true, new_prefix = true;
  Shared* sh = nullptr;
  // counters
  int64_t executions = 0, steps = 0, points = 0, abandoned = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, int64_t> outcomes;
  std::vector<std::string> trace;  // description of the current execution
  std::vector<std::string> samples;
  bool capped = false;
};
inline Engine& E() {
  static Engine* e = new Engine;
  return *e;
}
inline bool thorough() { return E().thorough; }
// Bound selected by the tier.
template <class T>
T tier(T quick, T deep) {
  return E().thorough ? deep : quick;
}

inline int choose(int n) {
  Engine& e = E();
  if (n <= 0) {
    fprintf(stderr, "mc: choose(%d)\n", n);
    abort();
  }
  if (e.pos < e.path.size()) {
    Point& p = e.path[e.pos];
    if (e.replay) p.n = n;
    if (p.n != n || p.choice >= n) {
      fprintf(stderr, "mc: nondeterministic harness: %d alternatives, had %d (point %zu)\n", n, p.n, e.pos);
      abort();
    }
  } else {
    if (e.replay) e.path.push_back({0, n});
    else e.path.push_back({0, n});
    if (e.sh && e.pos < 4096) e.sh->choices[e.pos] = 0;
  }
  int c = e.path[e.pos].choice;
  ++e.pos;
  if (e.sh) e.sh->depth = (int)e.pos;
  ++e.points;
  if (!e.replay && (int)e.pos == e.shard_depth) {
    if (e.new_prefix) e.mine = (e.shard_counter++ % e.nshards) == e.shard;
    e.new_prefix = false;
    if (!e.mine) throw Skip{};
  }
  return c;
}
inline bool flag() { return choose(2) == 1; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }  // inclusive
template <class C>
const auto& pick(const C& c) {
  return *(std::begin(c) + choose((int)std::size(c)));
}
template <class T, size_t N>
const T& pick(const T (&c)[N]) {
  return c[choose((int)N)];
}
[[noreturn]] inline void abandon() { throw Abandon{}; }

// One step (call into the real code whose result is compared).
inline void step(int64_t n = 1) { E().steps += n; }
inline uint64_t mix(uint64_t h, uint64_t v) {
  uint64_t z = (h + 0x632be59bd9b4e019ull) * 0x9e3779b97f4a7c15ull + v;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h, s.size());
}
template <class... A>
std::string cat(const A&... a) {
  std::ostringstream os;
  (void)(os << ... << a);
  return os.str();
}
// A distinct state (or input) reached, canonically hashed by the harness.
inline void state(uint64_t h) {
  Engine& e = E();
  if (e.states.size() < 3000000) e.states.insert(h);
}
inline void state(const std::string& s) { state(hash_str(s)); }
inline void outcome(const std::string& s) {
  auto& o = E().outcomes;
  auto it = o.find(s);
  if (it != o.end()) ++it->second;
  else if (o.size() < 2000) o[s] = 1;
}
// Appends to the description of this execution (kept cheap by callers).
inline bool describing() { return E().verbose || E().replay || E().samples.size() < 3; }
inline void say(std::string s) { E().trace.push_back(std::move(s)); }
#define MC_SAY(...)                                    \
  do {                                                 \
    if (::mc::describing()) {                          \
      std::ostringstream mc_os;                        \
      mc_os << __VA_ARGS__;                            \
      ::mc::say(mc_os.str());                          \
    }                                                  \
  } while (0)

[[noreturn]] inline void fail(std::string key, std::string msg) {
  throw Violation{std::move(key), std::move(msg)};
}

template <class T>
std::string show(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return "\"" + v + "\"";
  } else if constexpr (std::is_floating_point_v<T>) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", (double)v);
    return b;
  } else if constexpr (requires(std::ostringstream& o) { o << v; }) {
    std::ostringstream o;
    o << v;
    return o.str();
  } else if constexpr (requires { v.begin(); v.end(); }) {
    std::string r = "[";
    for (const auto& x : v) {
      if (r.size() > 1) r += ",";
      using X = std::decay_t<decltype(x)>;
      r += show<X>(X(x));
    }
    return r + "]";
  } else {
    return "?";
  }
}
#define MC_CHECK(cond, ...)                                              \
  do {                                                                   \
    if (!(cond)) {                                                       \
      std::ostringstream mc_os;                                          \
      mc_os << __VA_ARGS__;                                              \
      ::mc::fail("", std::string("expected " #cond ": ") + mc_os.str()); \
    }                                                                    \
  } while (0)
// Copies small values (a reference may dangle, as from std::max), passes on the rest.
template <class T>
decltype(auto) hold(T&& v) {
  if constexpr (std::is_scalar_v<std::remove_cvref_t<T>> || (std::is_trivially_copyable_v<std::remove_cvref_t<T>> && std::is_copy_constructible_v<std::remove_cvref_t<T>> && !std::is_array_v<std::remove_cvref_t<T>>) || !std::is_lvalue_reference_v<T>) return std::remove_cvref_t<T>(std::forward<T>(v));
  else return std::forward<T>(v);

}
#define MC_EQ(got, want, ...)                                                        \
  do {                                                                               \
    auto&& mc_g = ::mc::hold(got);                                                             \
    auto&& mc_w = ::mc::hold(want);                                                            \
    if (!(mc_g == mc_w)) {                                                           \
      std::ostringstream mc_os;                                                      \
      mc_os << #got << " is " << ::mc::show(mc_g) << ", expected " << ::mc::show(mc_w) << "; " << __VA_ARGS__; \
      ::mc::fail("", mc_os.str());                                                   \
    }                                                                                \
  } while (0)

inline std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline std::string join(const std::vector<std::string>& v, const char* sep) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += sep;
    r += v[i];
  }
  return r;
}

// Optional extra setup, run once before exploration.
inline std::function<void()>& setup() {
  static std::function<void()> f;
  return f;
}

inline int run_main(int argc, char** argv) {
  Engine& e = E();
  std::string out_path, shared_path, only, replay;
  double budget = 1e9;
  std::vector<std::string> known;
  bool is_replay = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") {
      for (auto& h : harnesses()) printf("%s\n", h.name);
      return 0;
    } else if (a == "--harness") only = next();
    else if (a == "--shard") e.shard = atoi(next().c_str());
    else if (a == "--shards") e.nshards = atoi(next().c_str());
    else if (a == "--depth") e.shard_depth = atoi(next().c_str());
    else if (a == "--out") out_path = next();
    else if (a == "--shared") shared_path = next();
    else if (a == "--thorough") e.thorough = true;
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--known") known.push_back(next());
    else if (a == "--replay") { is_replay = true; replay = next(); }
    else { fprintf(stderr, "unknown flag %s\n", a.c_str()); return 2; }
  }
  if (e.nshards == 1) e.shard_depth = -1;
  if (!shared_path.empty()) {
    int fd = open(shared_path.c_str(), O_RDWR | O_CREAT, 0644);
    if (ftruncate(fd, sizeof(Shared)) != 0) return 2;
    e.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    e.sh->depth = 0;
    e.sh->heartbeat = 1;
  }
  const Harness* h = nullptr;
  for (auto& x : harnesses()) if (only == x.name) h = &x;
  if (!h) { fprintf(stderr, "no harness %s\n", only.c_str()); return 2; }
  if (setup()) setup()();
  std::vector<Violation> viol;
  std::vector<std::string> viol_choices, viol_traces;
  auto choices_str = [&] {
    std::string r;
    for (size_t i = 0; i < e.pos && i < e.path.size(); ++i) r += (i ? "," : "") + std::to_string(e.path[i].choice);
    return r;
  };
  if (is_replay) {
    e.replay = true;
    std::stringstream ss(replay);
    std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) e.path.push_back({atoi(t.c_str()), 0});
  }
  auto t0 = std::chrono::steady_clock::now();
  int64_t n_viol = 0;
  while (true) {
    e.pos = 0;
    e.trace.clear();
    if (e.sh) {
      e.sh->heartbeat = e.sh->heartbeat + 1;
      e.sh->depth = 0;
    }
    bool counted = true;
    try {
      h->fn();
      if (!e.replay && e.shard_depth > 0 && (int)e.pos < e.shard_depth) {
        counted = (e.shard_counter++ % e.nshards) == e.shard;
      }
    } catch (const Skip&) {
      counted = false;
    } catch (const Abandon&) {
      counted = false;
      ++e.abandoned;
    } catch (const std::exception& ex) {
      viol.push_back({"", std::string("uncaught exception: ") + ex.what()});
      viol_choices.push_back(choices_str());
      viol_traces.push_back(join(e.trace, "; "));
      ++n_viol;
    } catch (const Violation& v) {
      bool is_known = false;
      for (auto& k : known) is_known |= !v.key.empty() && k == v.key;
      bool dup = false;
      if (!v.key.empty()) for (auto& o : viol) dup |= o.key == v.key;
      if (!dup && (viol.size() < 20 || is_known)) {
        viol.push_back(v);
        viol_choices.push_back(choices_str());
        viol_traces.push_back(join(e.trace, "; "));
      }
      if (!is_known) ++n_viol;
    }
    if (counted) {
      ++e.executions;
      if (e.samples.size() < 3 && (e.executions % 7 == 1 || e.trace.size() > 1)) e.samples.push_back(join(e.trace, "; "));
      else if (e.executions == 1000 || e.executions == 20000) { e.verbose = true; }
      else if (e.verbose && !e.trace.empty() && e.samples.size() < 5) { e.samples.push_back(join(e.trace, "; ")); e.verbose = false; }
    }
    if (e.replay) {
      printf("trace: %s\n", join(e.trace, "\n       ").c_str());
      for (auto& v : viol) printf("violation: key=%s %s\n", v.key.c_str(), v.msg.c_str());
      return viol.empty() ? 0 : 1;
    }
    if (n_viol >= 3) break;
    // Next choice vector.
    e.path.resize(std::min(e.path.size(), e.pos));
    while (!e.path.empty() && e.path.back().choice + 1 >= e.path.back().n) e.path.pop_back();
    if (e.path.empty()) break;
    ++e.path.back().choice;
    if ((int)e.path.size() <= e.shard_depth) e.new_prefix = true;
    if (e.sh) for (size_t i = 0; i < e.path.size() && i < 4096; ++i) e.sh->choices[i] = e.path[i].choice;
    if ((e.executions & 63) == 0) {
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (dt > budget) { e.capped = true; break; }
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ostringstream o;
  o << "{\"harness\":" << json(h->name) << ",\"executions\":" << e.executions << ",\"steps\":" << e.steps
    << ",\"states\":" << e.states.size() << ",\"points\":" << e.points << ",\"abandoned\":" << e.abandoned << ",\"capped\":" << (e.capped ? "true" : "false")
    << ",\"wall\":" << wall << ",\"outcomes\":{";
  bool first = true;
  for (auto& [k, v] : e.outcomes) {
    o << (first ? "" : ",") << json(k) << ":" << v;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto& s : e.samples) {
    if (s.empty()) continue;
    o << (first ? "" : ",") << json(s.substr(0, 1500));
    first = false;
  }
  o << "],\"violations\":[";
  for (size_t i = 0; i < viol.size(); ++i)
    o << (i ? "," : "") << "{\"key\":" << json(viol[i].key) << ",\"msg\":" << json(viol[i].msg) << ",\"choices\":" << json(viol_choices[i])
      << ",\"trace\":" << json(viol_traces[i]) << "}";
  o << "]}\n";
  if (!out_path.empty()) {
    FILE* f = fopen(out_path.c_str(), "w");
    fputs(o.str().c_str(), f);
    fclose(f);
    if (!e.states.empty()) {
      f = fopen((out_path + ".st").c_str(), "wb");
      for (uint64_t x : e.states) fwrite(&x, 8, 1, f);
      fclose(f);
    }
  } else {
    fputs(o.str().c_str(), stdout);
  }
  fflush(stdout);
  _exit(0);
}

}  // namespace mc

#ifndef MC_NO_MAIN
#define MC_MAIN() \
  int main(int argc, char** argv) { return ::mc::run_main(argc, argv); }
#endif

#endif  // VERIF_MC_H_
