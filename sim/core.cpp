#include "core.h"
#include <cstdarg>
#include <new>
#include <sstream>
#include <unistd.h>
#include <atomic>
#include <sys/mman.h>

namespace sim {

Stats g_stats;
bool g_verbose = false;
Log g_log;
unsigned char g_poison = 0;
thread_local AllocState t_alloc;
thread_local int t_in_lib = 0;
thread_local int t_in_seam = 0;
thread_local uint64_t t_steps = 0;
thread_local uint64_t t_step_budget = 0;
thread_local void (*t_yield_hook)(int) = nullptr;
uint64_t g_total_steps = 0;
uint32_t g_edge_now = 0;
void (*g_hang_hook)() = nullptr;

std::string fmt(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n < 0) return std::string();
  if ((size_t)n < sizeof buf) return std::string(buf, n);
  std::string s(n + 1, '\0');
  va_start(ap, f);
  vsnprintf(&s[0], s.size(), f, ap);
  va_end(ap);
  s.resize(n);
  return s;
}

std::string hexs(const std::string& d, size_t max) {
  std::string r;
  for (size_t i = 0; i < d.size() && i < max; ++i) r += fmt("%02x", (unsigned char)d[i]);
  if (d.size() > max) r += fmt("..(%zu)", d.size());
  return r;
}

void violate(const std::string& cls, const std::string& msg) {
  if (g_verbose) fprintf(stderr, "!! %s: %s\n", cls.c_str(), msg.c_str());
  throw Violation{cls, msg};
}

void Log::ev(const std::string& s) {
  h = fnv(s, h);
  h = fnv("\n", 1, h);
  ++n;
  if (g_verbose) fprintf(stderr, "%5llu %s\n", (unsigned long long)n, s.c_str());
}

std::string Plan::text() const {
  std::string r = "pesim-plan 1\nproperty " + property + "\n" + fmt("seed %llu\n", (unsigned long long)seed);
  for (auto& o : ops) {
    r += "op " + o.name;
    for (auto& kv : o.a) r += fmt(" %s=%lld", kv.first.c_str(), (long long)kv.second);
    r += "\n";
  }
  return r;
}

Plan Plan::parse(const std::string& t) {
  Plan p;
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "property") l >> p.property;
    else if (w == "seed") { unsigned long long v; l >> v; p.seed = v; }
    else if (w == "op") {
      Op o;
      l >> o.name;
      while (l >> w) {
        size_t e = w.find('=');
        if (e == std::string::npos) continue;
        o.a[w.substr(0, e)] = strtoll(w.c_str() + e + 1, nullptr, 0);
      }
      p.ops.push_back(o);
    }
  }
  return p;
}

// ------------------------------------------------------------ allocation table
// Open-addressing set of live blocks allocated inside library calls. Only one
// simulated task runs at a time, so no locking is needed beyond that; a spin
// flag keeps the rare non-task thread use well defined.
namespace {
struct Table {
  void** slot = nullptr;
  size_t cap = 0, used = 0, live = 0;
  static void* tomb() { return (void*)1; }
  static size_t hash(void* p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return x; }
  void grow() {
    size_t oc = cap;
    void** os = slot;
    cap = live * 4 + 1024;
    size_t c = 1;
    while (c < cap) c <<= 1;
    cap = c;
    slot = (void**)calloc(cap, sizeof(void*));
    used = live = 0;
    for (size_t i = 0; i < oc; ++i)
      if (os[i] && os[i] != tomb()) put(os[i]);
    free(os);
  }
  void put(void* p) {
    if (!slot || used * 2 >= cap) grow();
    size_t i = hash(p) & (cap - 1);
    while (slot[i] && slot[i] != tomb()) i = (i + 1) & (cap - 1);
    if (!slot[i]) ++used;
    slot[i] = p;
    ++live;
  }
  void del(void* p) {
    if (!live) return;
    size_t i = hash(p) & (cap - 1);
    while (slot[i]) {
      if (slot[i] == p) { slot[i] = tomb(); --live; return; }
      i = (i + 1) & (cap - 1);
    }
  }
  void clear() {
    if (slot) memset(slot, 0, cap * sizeof(void*));
    used = live = 0;
  }
} g_table;
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Guard { Guard() { while (g_lock.test_and_set()) {} } ~Guard() { g_lock.clear(); } };
}

int64_t live_lib_allocs() { Guard g; return (int64_t)g_table.live; }
void lib_allocs_forget() { Guard g; g_table.clear(); }

static void* sim_new(size_t n, bool nothrow, size_t align) {
  bool act = t_in_lib > 0 && t_in_seam == 0;
  if (act) {
    int64_t k = t_alloc.count++;
    if (t_alloc.cfg.fail_at >= 0 && k >= t_alloc.cfg.fail_at && k < t_alloc.cfg.fail_at + t_alloc.cfg.fail_count) {
      ++t_alloc.failed;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    if (n > t_alloc.cfg.cap) {
      ++t_alloc.refused;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (act) {
    memset(p, t_alloc.cfg.poison, n);
    Guard g;
    g_table.put(p);
  }
  return p;
}
static void sim_delete(void* p) {
  if (!p) return;
  { Guard g; g_table.del(p); }
  free(p);
}

__attribute__((noinline)) void poison_stack(unsigned char b) {
  volatile char buf[16384];
  memset((char*)buf, b, sizeof buf);
  asm volatile("" : : "r"(buf) : "memory");
}

Lib::Lib() {
  if (t_in_lib++ == 0) { t_steps = 0; poison_stack(t_alloc.cfg.poison); }
}
Lib::~Lib() { if (--t_in_lib == 0) { g_total_steps += t_steps; } }

// ------------------------------------------------------------ coverage + clock
static uint32_t g_nedges = 0;
static unsigned char* g_edges = nullptr;
uint64_t edges_total() { return g_nedges; }
uint64_t edges_hit() { uint64_t n = 0; for (uint32_t i = 0; i < g_nedges; ++i) n += g_edges[i] != 0; return n; }
const unsigned char* edges_map() { return g_edges; }
void edges_merge(std::vector<unsigned char>& into) {
  into.resize(g_nedges);
  for (uint32_t i = 0; i < g_nedges; ++i) into[i] |= g_edges[i];
}
void on_hang() {
  if (g_hang_hook) g_hang_hook();
  _exit(79);
}
}  // namespace sim

using namespace sim;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++g_nedges;
  // shared with child processes, which report what they reached through it
  g_edges = (unsigned char*)mmap(nullptr, g_nedges + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (t_in_lib == 0 || t_in_seam) return;
  g_edges[*guard - 1] = 1;
  g_edge_now = *guard;
  uint64_t lim = t_step_budget ? t_step_budget : 400000000ull;
  if (++t_steps > lim) on_hang();
  if (t_yield_hook) t_yield_hook(0);
}

void* operator new(size_t n) { return sim_new(n, false, 0); }
void* operator new[](size_t n) { return sim_new(n, false, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true, 0); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, false, (size_t)a); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
