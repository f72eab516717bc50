// pesim core: seeded PRNG, event log, violation type, allocator seam, step clock.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <stdexcept>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hexs(const std::string& data, size_t max = 48);

// ---------------------------------------------------------------- plan
// A run is a pure function of its plan (and the code). The plan is generated
// from one integer, printed as text, minimised and replayed.
struct Op {
  std::string name;
  std::map<std::string, int64_t> a;
  int64_t get(const char* k, int64_t d = 0) const { auto i = a.find(k); return i == a.end() ? d : i->second; }
  bool has(const char* k) const { return a.count(k) != 0; }
  Op& set(const char* k, int64_t v) { a[k] = v; return *this; }
};
struct Plan {
  std::string property;
  uint64_t seed = 0;      // seed the plan was generated from (informative after minimisation)
  std::vector<Op> ops;
  Op& add(const std::string& n) { ops.push_back(Op()); ops.back().name = n; return ops.back(); }
  std::string text() const;
  static Plan parse(const std::string& t);
};

// ---------------------------------------------------------------- violation
struct Violation {
  std::string cls;  // stable class, used by the minimiser and the replay gate
  std::string msg;
};
// the harness itself cannot go on (never blamed on the library)
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void violate(const std::string& cls, const std::string& msg);

// ---------------------------------------------------------------- stats / log
struct Stats {
  std::map<std::string, uint64_t> faults;   // fault kind -> times it actually fired
  std::map<std::string, uint64_t> probes;   // rare condition -> times reached
  std::map<std::string, uint64_t> ops;      // operation -> times executed
  std::set<uint64_t> states;                // distinct end-of-step state digests
  std::set<uint64_t> traces;                // distinct run traces (event log hashes)
  uint64_t runs = 0, nontrivial = 0, steps = 0, io_ops = 0, switches = 0, allocs = 0;
};
extern Stats g_stats;
extern bool g_verbose;
inline void fault_fired(const std::string& k) { g_stats.faults[k]++; }
inline void probe(const std::string& k) { g_stats.probes[k]++; }

struct Log {
  uint64_t h = 1469598103934665603ull;
  uint64_t n = 0;
  void reset() { h = 1469598103934665603ull; n = 0; }
  void ev(const std::string& s);
};
extern Log g_log;
#define EV(...) ::sim::g_log.ev(::sim::fmt(__VA_ARGS__))

// ---------------------------------------------------------------- allocator seam
// operator new/delete are replaced for the whole process; while a Lib guard is
// alive on the calling task the simulator decides every allocation.
struct AllocCfg {
  int64_t fail_at = -1;        // index of the in-library allocation that fails (-1: none)
  int64_t fail_count = 1;      // how many consecutive allocations fail from there
  uint64_t cap = 96u << 20;    // a single request above this is refused (simulated memory limit)
  unsigned char poison = 0;    // byte put into fresh memory
};
struct AllocState {
  AllocCfg cfg;
  int64_t count = 0;           // in-library allocations since reset
  uint64_t failed = 0, refused = 0;
};
extern thread_local AllocState t_alloc;
extern thread_local int t_in_lib;      // depth of library calls
extern thread_local int t_in_seam;     // depth of simulator code called back from the library
int64_t live_lib_allocs();             // live blocks allocated inside library calls
void lib_allocs_forget();              // forget them (between runs)

void poison_stack(unsigned char b);

// Marks "the library is running": enables allocation faults, accounting, step clock.
struct Lib {
  Lib();
  ~Lib();
};
// Marks "simulator code called from the library" (stream buffers): no faults in here.
struct Seam {
  Seam() { ++t_in_seam; }
  ~Seam() { --t_in_seam; }
};
extern unsigned char g_poison;         // poison for this run

// ---------------------------------------------------------------- step clock
// One tick per instrumented basic block of the library. A library call that
// uses more than its budget is a hang (reported through the worker protocol).
extern thread_local uint64_t t_steps;        // ticks of the current library call
extern thread_local uint64_t t_step_budget;  // 0: default
extern uint64_t g_total_steps;
uint64_t edges_total();
uint64_t edges_hit();
void edges_merge(std::vector<unsigned char>& into);
const unsigned char* edges_map();
void on_hang() __attribute__((noreturn));
extern void (*g_hang_hook)();

// Scheduler hook: called at every basic block and seam operation when tasks run.
extern thread_local void (*t_yield_hook)(int kind);
inline void yield_point(int kind) { if (t_yield_hook) t_yield_hook(kind); }

}  // namespace sim
