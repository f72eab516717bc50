// pesim: runs seeded simulations of the library and reports violations.
//   pesim check C01 quick|thorough      search (exit 0 held, 1 violation, 2 broken check)
//   pesim replay FILE [-v]              replay a plan file (exit 1 if it violates)
//   pesim run C01 INDEX [-v]            one run of the search
//   pesim plan C01 INDEX                print the plan of that run
//   pesim hashes C01 N                  log hashes of the first N runs (determinism audit)
#include "exec.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <atomic>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <new>
#include <sanitizer/asan_interface.h>

namespace sim {

static std::vector<const Exec*>& reg() { static std::vector<const Exec*> v; return v; }
ExecReg::ExecReg(const Exec* e) { reg().push_back(e); }
std::vector<const Exec*> all_execs() { return reg(); }
const Exec* find_exec(const std::string& id) { for (auto e : reg()) if (id == e->id) return e; return nullptr; }

// ---------------------------------------------------------------- shared state
struct Cell {                 // one per child, shared with the parent
  std::atomic<int64_t> index;
  std::atomic<uint64_t> beat;
  int state;                  // 0 running, 1 clean, 2 violation, 3 crash, 4 hang, 5 harness error
  uint64_t log_hash, log_n;
  bool nontrivial;
  char cls[400];
  char msg[2000];
};
static Cell* t_cell = nullptr;   // of this process
static std::string g_prop;

static void set_cell(int state, const std::string& cls, const std::string& msg) {
  if (!t_cell) return;
  t_cell->state = state;
  t_cell->log_hash = g_log.h;
  t_cell->log_n = g_log.n;
  snprintf(t_cell->cls, sizeof t_cell->cls, "%s", cls.c_str());
  snprintf(t_cell->msg, sizeof t_cell->msg, "%s", msg.c_str());
}

// Class of a sanitizer report: its kind and the innermost frame in the library.
static void asan_report(const char* rep) {
  static bool once = false;
  if (once) return;
  once = true;
  std::string s(rep), kind = "error", fn;
  size_t k = s.find("AddressSanitizer: ");
  if (k != std::string::npos) {
    size_t b = k + 18, e = s.find_first_of(" \n", b);
    kind = s.substr(b, e - b);
    if (kind == "attempting") kind = s.substr(b, s.find('\n', b) - b).find("double") != std::string::npos ? "double-free" : "bad-free";
  }
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) {
    size_t at = line.find(" in ");
    if (line.find("    #") != 0 || at == std::string::npos) { if (!fn.empty()) break; continue; }
    if (line.find("/pe_lib/") == std::string::npos) continue;
    fn = line.substr(at + 4);
    size_t p = fn.rfind(' ');
    std::string file = p == std::string::npos ? "" : fn.substr(p + 1);
    fn = fn.substr(0, fn.find('('));
    size_t sp = fn.rfind(' ');
    if (sp != std::string::npos) fn = fn.substr(sp + 1);
    break;
  }
  if (g_verbose) fprintf(stderr, "%s\n", rep);
  set_cell(3, g_prop + ":memory-" + kind, kind + (fn.empty() ? "" : " in " + fn) + ": " + s.substr(k == std::string::npos ? 0 : k, s.find('\n', k == std::string::npos ? 0 : k) - (k == std::string::npos ? 0 : k)));
}
static void hang_hook() {
  set_cell(4, g_prop + ":hang", fmt("a library call did not finish within %llu basic blocks", (unsigned long long)(t_step_budget ? t_step_budget : 400000000ull)));
  fflush(nullptr);
  _exit(79);
}
static void on_terminate() {
  std::string what = "unknown";
  try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { what = e.what(); } catch (...) {}
  set_cell(3, g_prop + ":terminate", "std::terminate: " + what);
  if (g_verbose) fprintf(stderr, "terminate: %s\n", what.c_str());
  _exit(78);
}

// ---------------------------------------------------------------- one run
struct Outcome { int state = 1; std::string cls, msg; uint64_t hash = 0, n = 0; bool nontrivial = false; std::string what; };

static void reset_run(uint64_t seed) {
  g_log.reset();
  t_alloc = AllocState();
  t_in_lib = t_in_seam = 0;
  t_steps = 0;
  t_step_budget = 0;
  g_poison = 0;
  (void)seed;
}

static Outcome run_once(const Exec* e, const Plan& p, bool count) {
  Outcome o;
  RunInfo info;
  reset_run(p.seed);
  try {
    e->run(p, info);
  } catch (const Violation& v) {
    t_in_lib = t_in_seam = 0;
    o.state = 2; o.cls = v.cls; o.msg = v.msg;
  } catch (const HarnessError& x) {
    t_in_lib = t_in_seam = 0;
    o.state = 5; o.cls = "harness"; o.msg = std::string("harness: ") + x.what();
  } catch (const std::exception& x) {
    t_in_lib = t_in_seam = 0;
    o.state = 2; o.cls = std::string(e->id) + ":escape"; o.msg = std::string("a call that must succeed let an exception escape: ") + x.what();
  } catch (...) {
    t_in_lib = t_in_seam = 0;
    o.state = 2; o.cls = std::string(e->id) + ":escape"; o.msg = "a call that must succeed let an unknown exception escape";
  }
  t_alloc.cfg = AllocCfg();
  o.hash = g_log.h; o.n = g_log.n; o.nontrivial = info.nontrivial; o.what = info.what;
  (void)count;
  return o;
}

static Outcome run_plan(const Exec* e, const Plan& p) {
  lib_allocs_forget();
  Outcome o = run_once(e, p, true);
  if (o.state == 1 && e->leaks && live_lib_allocs() > 0) {
    // caches that fill on first use are not leaks: only what every repetition leaves behind counts
    int64_t n = 0;
    for (int k = 0; k < 2 && o.state == 1; ++k) {
      lib_allocs_forget();
      Outcome q = run_once(e, p, false);
      if (q.state != 1) return q;
      n = live_lib_allocs();
      if (!n) break;
    }
    if (n > 0) { o.state = 2; o.cls = std::string(e->id) + ":leak"; o.msg = fmt("%lld blocks allocated by library calls are never released", (long long)n); }
  }
  lib_allocs_forget();
  return o;
}

static Plan make_plan(const Exec* e, uint64_t seed, uint64_t index, bool thorough) {
  Plan p;
  p.property = e->id;
  p.seed = seed * 1000003ull + index;
  Rng r(p.seed ^ fnv(std::string(e->id)));
  e->gen(r, p, thorough);
  return p;
}

// ---------------------------------------------------------------- children
static Cell* shared_cells(int n) {
  void* m = mmap(nullptr, sizeof(Cell) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return (Cell*)m;
}

// Runs one plan in a child of this process.
static Outcome run_in_child(const Exec* e, const Plan& p, int timeout_s = 60) {
  static Cell* cell = shared_cells(1);
  memset((void*)cell, 0, sizeof *cell);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    t_cell = cell;
    alarm(timeout_s);
    if (!g_verbose) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); }
    Outcome o = run_plan(e, p);
    set_cell(o.state, o.cls, o.msg);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.state = cell->state;
  o.cls = cell->cls; o.msg = cell->msg; o.hash = cell->log_hash; o.n = cell->log_n;
  if (o.state == 0) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.state = 4; o.cls = g_prop + ":hang"; o.msg = fmt("run did not finish within %d s", timeout_s); }
    else { o.state = 3; o.cls = g_prop + ":crash"; o.msg = fmt("process ended with status %x", st); }
    o.hash = o.n = 0;
  }
  return o;
}
static bool is_violation(const Outcome& o) { return o.state >= 2 && o.state <= 4; }

// ---------------------------------------------------------------- minimiser
static Plan minimise(const Exec* e, Plan p, const std::string& cls, double budget_s, unsigned& tried) {
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
  auto fails = [&](const Plan& q) { ++tried; Outcome o = run_in_child(e, q, 40); return is_violation(o) && o.cls == cls; };
  for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && !over();) {
    bool any = false;
    for (size_t i = 0; i < p.ops.size() && !over();) {
      if (p.ops.size() <= 1) break;
      Plan q = p;
      q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(q.ops.size(), i + chunk));
      if (!q.ops.empty() && fails(q)) { p = q; any = true; }
      else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk /= 2;
  }
  for (int round = 0; round < 2 && !over(); ++round)
    for (size_t i = 0; i < p.ops.size() && !over(); ++i) {
      std::vector<std::string> keys;
      for (auto& kv : p.ops[i].a) keys.push_back(kv.first);
      for (auto& k : keys) {
        if (over()) break;
        Plan q = p;
        q.ops[i].a.erase(k);
        if (fails(q)) { p = q; continue; }
        int64_t v = p.ops[i].a[k];
        for (int64_t c : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
          if (c == v || c < 0 || (v >= 0 && c > v)) continue;
          q = p;
          q.ops[i].a[k] = c;
          if (fails(q)) { p = q; break; }
        }
      }
    }
  return p;
}

// ---------------------------------------------------------------- search
static std::string g_self, g_root, g_evid;

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
    else r += (char)c;
  }
  return r + "\"";
}
static std::string json_map(const std::map<std::string, uint64_t>& m) {
  std::string r = "{";
  for (auto& kv : m) r += (r.size() > 1 ? ", " : "") + json_str(kv.first) + ": " + fmt("%llu", (unsigned long long)kv.second);
  return r + "}";
}

struct Found { uint64_t index; int state; std::string cls, msg; };

static std::string stats_text() {
  std::ostringstream f;
  f << "steps " << g_total_steps << "\nio " << g_stats.io_ops << "\nswitches " << g_stats.switches << "\n";
  for (auto& kv : g_stats.faults) f << "fault " << kv.second << " " << kv.first << "\n";
  for (auto& kv : g_stats.probes) f << "probe " << kv.second << " " << kv.first << "\n";
  for (auto& kv : g_stats.ops) f << "op " << kv.second << " " << kv.first << "\n";
  for (auto& t : g_stats.states) f << "s " << t << "\n";
  return f.str();
}
static void add_stats(const std::string& t) {
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    size_t a = l.find(' '), b = l.find(' ', a + 1);
    std::string w = l.substr(0, a), name = b == std::string::npos ? "" : l.substr(b + 1);
    uint64_t v = strtoull(l.c_str() + a + 1, nullptr, 10);
    if (w == "steps") g_total_steps += v;
    else if (w == "io") g_stats.io_ops += v;
    else if (w == "switches") g_stats.switches += v;
    else if (w == "fault") g_stats.faults[name] += v;
    else if (w == "probe") g_stats.probes[name] += v;
    else if (w == "op") g_stats.ops[name] += v;
    else if (w == "s") g_stats.states.insert(v);
  }
}
// One run in a child of the worker, which reports its statistics through a file.
static Outcome run_isolated(const Exec* e, const Plan& p, const std::string& file) {
  Cell* cell = t_cell;
  cell->state = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(120);
    g_stats = Stats();
    g_total_steps = 0;
    Outcome o = run_plan(e, p);
    set_cell(o.state, o.cls, o.msg);
    cell->nontrivial = o.nontrivial;
    { std::ofstream f(file); f << stats_text(); }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.state = cell->state; o.cls = cell->cls; o.msg = cell->msg; o.hash = cell->log_hash; o.n = cell->log_n; o.nontrivial = cell->nontrivial;
  if (o.state == 0) {
    bool al = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    o.state = al ? 4 : 3;
    o.cls = g_prop + (al ? ":hang" : ":crash");
    o.msg = al ? "run did not finish within 120 s" : fmt("process ended with status %x", st);
    return o;
  }
  if (o.state == 1) { std::ifstream f(file); add_stats(std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>())); }
  unlink(file.c_str());
  return o;
}

static void write_stats(const std::string& path, const std::vector<std::string>& samples, double busy) {
  std::ofstream f(path);
  f << "runs " << g_stats.runs << "\nnontrivial " << g_stats.nontrivial << "\n" << stats_text();
  f << "busy " << busy << "\n";
  for (auto& t : g_stats.traces) f << "t " << t << "\n";
  for (auto& t : g_stats.states) f << "s " << t << "\n";
  const unsigned char* m = edges_map();
  f << "edges ";
  for (uint64_t i = 0; i < edges_total(); ++i) f << (m[i] ? '1' : '0');
  f << "\n";
  for (auto& s : samples) f << "sample " << s << "\n";
}

struct Known { std::string prop, cls, text, plan; };
static std::vector<Known> load_known(const std::string& prop) {
  std::vector<Known> v;
  std::ifstream f(g_root + "/known-findings.txt");
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 8, "finding:") != 0) continue;
    std::istringstream in(l.substr(8));
    std::string w;
    Known k;
    while (in >> w) {
      if (w.compare(0, 9, "property=") == 0) k.prop = w.substr(9);
      else if (w.compare(0, 6, "class=") == 0) k.cls = w.substr(6);
      else if (w.compare(0, 5, "plan=") == 0) k.plan = w.substr(5);
      else { std::string rest; std::getline(in, rest); k.text = w + rest; break; }
    }
    if (k.prop == prop) v.push_back(k);
  }
  return v;
}

static bool g_nomin = false;
static int check(const Exec* e, bool thorough, uint64_t seed, uint64_t runs, int workers, double cap_s) {
  double t0 = now_s();
  std::string tmp = g_root + "/build/tmp." + std::to_string(getpid());
  mkdir((g_root + "/build").c_str(), 0777);
  mkdir(tmp.c_str(), 0777);
  printf("pesim %s %s seed=%llu runs=%llu workers=%d\n", e->id, thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)runs, workers);
  fflush(stdout);
  Cell* cells = shared_cells(workers);
  auto* minf = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  minf->store(~0ull);
  std::set<uint64_t> skip;   // indices that did not reproduce in a fresh process
  std::vector<Found> unreproducible;
  Found best;
  bool found = false;
  Plan minimal;
  unsigned tried = 0;
  std::string replay_path;
  std::vector<std::string> stat_files;
  uint64_t start_index = 0;
  for (int attempt = 0; attempt < 4 && !found; ++attempt) {
    memset((void*)cells, 0, sizeof(Cell) * workers);
    minf->store(~0ull);
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
      std::string sf = tmp + "/w" + std::to_string(attempt) + "_" + std::to_string(w);
      stat_files.push_back(sf);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        t_cell = &cells[w];
        if (!g_verbose) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); }
        std::vector<std::string> samples;
        double b0 = now_s();
        for (uint64_t i = start_index + w; i < runs; i += workers) {
          if (i > minf->load()) break;
          if (now_s() - t0 > cap_s) break;
          if (skip.count(i)) continue;
          t_cell->index.store((int64_t)i);
          t_cell->beat.fetch_add(1);
          Plan p = make_plan(e, seed, i, thorough);
          Outcome o = e->isolate ? run_isolated(e, p, sf + ".r") : run_plan(e, p);
          ++g_stats.runs;
          if (o.nontrivial) { ++g_stats.nontrivial; g_stats.traces.insert(o.hash); }
          if (samples.size() < 2 && o.nontrivial) { std::string t = p.text(); for (auto& c : t) if (c == '\n') c = ';'; samples.push_back(t + " => " + fmt("log %016llx, %llu events", (unsigned long long)o.hash, (unsigned long long)o.n)); }
          if (o.state != 1) {
            set_cell(o.state, o.cls, o.msg);
            uint64_t cur = minf->load();
            while (i < cur && !minf->compare_exchange_weak(cur, i)) {}
            break;
          }
        }
        write_stats(sf, samples, now_s() - b0);
        if (t_cell->state == 0) t_cell->state = 1;
        fflush(nullptr);
        _exit(0);
      }
      pids.push_back(pid);
    }
    std::vector<uint64_t> beats(workers, 0);
    std::vector<double> since(workers, now_s());
    int left = workers;
    while (left > 0) {
      bool prog = false;
      for (int w = 0; w < workers; ++w) {
        if (pids[w] == 0) continue;
        int st = 0;
        pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w]) {
          pids[w] = 0; --left; prog = true;
          bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (!clean) {
            uint64_t i = (uint64_t)cells[w].index.load();
            if (cells[w].state == 0 || cells[w].state == 1) { cells[w].state = 3; snprintf(cells[w].cls, sizeof cells[w].cls, "%s:crash", e->id); snprintf(cells[w].msg, sizeof cells[w].msg, "process ended with status %x", st); }
            uint64_t cur = minf->load();
            while (i < cur && !minf->compare_exchange_weak(cur, i)) {}
          }
          continue;
        }
        uint64_t b = cells[w].beat.load();
        if (b != beats[w]) { beats[w] = b; since[w] = now_s(); }
        else if (now_s() - since[w] > 150) {
          cells[w].state = 4;
          snprintf(cells[w].cls, sizeof cells[w].cls, "%s:hang", e->id);
          snprintf(cells[w].msg, sizeof cells[w].msg, "no progress for 150 s");
          kill(pids[w], SIGKILL);
        }
      }
      if (!prog) usleep(5000);
    }
    uint64_t mi = minf->load();
    if (mi == ~0ull) break;
    for (int w = 0; w < workers; ++w)
      if (cells[w].state >= 2 && (uint64_t)cells[w].index.load() == mi) { best = Found{mi, cells[w].state, cells[w].cls, cells[w].msg}; }
    Plan p = make_plan(e, seed, mi, thorough);
    Outcome o = run_in_child(e, p, 120);
    if (o.state == 5 || best.state == 5) {
      fprintf(stderr, "harness error in run %llu: %s\n", (unsigned long long)mi, (o.state == 5 ? o.msg : best.msg).c_str());
      return 2;
    }
    if (!is_violation(o)) {
      unreproducible.push_back(best);
      skip.insert(mi);
      start_index = mi - mi % workers;
      continue;
    }
    best.cls = o.cls; best.msg = o.msg; best.state = o.state;
    minimal = g_nomin ? p : minimise(e, p, o.cls, thorough ? 120 : 45, tried);
    // gate: the minimised plan must fail identically twice here and once in a fresh process
    Outcome a = run_in_child(e, minimal, 120), b = run_in_child(e, minimal, 120);
    replay_path = g_evid + "/" + e->id + ".replay";
    mkdir((g_evid + "").c_str(), 0777);
    {
      std::ofstream f(replay_path);
      f << minimal.text() << "# class " << a.cls << "\n# " << a.msg << "\n# log " << fmt("%016llx", (unsigned long long)a.hash) << "\n";
    }
    std::string cmd = "'" + g_self + "' replay '" + replay_path + "' > '" + tmp + "/replay.out' 2>/dev/null";
    int rc = system(cmd.c_str());
    std::ifstream rf(tmp + "/replay.out");
    std::string txt((std::istreambuf_iterator<char>(rf)), std::istreambuf_iterator<char>());
    bool same = is_violation(a) && is_violation(b) && a.cls == o.cls && b.cls == o.cls && a.hash == b.hash && WIFEXITED(rc) && WEXITSTATUS(rc) == 1 && txt.find("class " + a.cls + " log " + fmt("%016llx", (unsigned long long)a.hash)) != std::string::npos;
    if (!same) {
      unreproducible.push_back(best);
      fprintf(stderr, "gate: run %llu class %s does not replay identically\n%s %016llx / %s %016llx / %s\n", (unsigned long long)mi, o.cls.c_str(), a.cls.c_str(), (unsigned long long)a.hash, b.cls.c_str(), (unsigned long long)b.hash, txt.c_str());
      skip.insert(mi);
      start_index = mi - mi % workers;
      continue;
    }
    best.msg = a.msg;
    found = true;
  }
  double search_s = now_s() - t0;
  // ---- merge statistics
  uint64_t nruns = 0, nontriv = 0, steps = 0, io = 0, sw = 0, edges = 0;
  double busy = 0;
  std::map<std::string, uint64_t> faults, probes, ops;
  std::set<uint64_t> traces, states;
  std::vector<std::string> samples;
  std::string emap;
  for (auto& sf : stat_files) {
    std::ifstream f(sf);
    std::string l;
    while (std::getline(f, l)) {
      std::istringstream in(l);
      std::string w, name;
      uint64_t v = 0;
      in >> w;
      if (w == "sample") { if (samples.size() < 4) samples.push_back(l.substr(7)); continue; }
      if (w == "edges") { std::string m; in >> m; if (emap.size() < m.size()) emap.resize(m.size(), '0'); for (size_t i = 0; i < m.size(); ++i) if (m[i] == '1') emap[i] = '1'; continue; }
      if (w == "busy") { double d; in >> d; busy += d; continue; }
      in >> v;
      in >> name;
      if (w == "runs") nruns += v;
      else if (w == "nontrivial") nontriv += v;
      else if (w == "steps") steps += v;
      else if (w == "io") io += v;
      else if (w == "switches") sw += v;
      else if (w == "fault") faults[name] += v;
      else if (w == "probe") probes[name] += v;
      else if (w == "op") ops[name] += v;
      else if (w == "t") traces.insert(v);
      else if (w == "s") states.insert(v);
    }
    unlink(sf.c_str());
  }
  unlink((tmp + "/replay.out").c_str());
  rmdir(tmp.c_str());
  for (char c : emap) edges += c == '1';
  if (!replay_path.empty() && !found) unlink(replay_path.c_str());
  mkdir((g_evid + "").c_str(), 0777);
  if (samples.empty()) samples.push_back(make_plan(e, seed, 0, thorough).text());
  double per_h = search_s > 0 ? nruns / search_s * 3600 : 0;
  std::ofstream ev(g_evid + "/" + e->id + ".json");
  ev << "{\n  \"property\": " << json_str(e->id) << ",\n  \"tier\": " << json_str(thorough ? "thorough" : "quick") << ",\n  \"seed\": " << seed << ",\n  \"level\": " << json_str(e->level)
     << ",\n  \"coverage\": {\n    \"evaluations\": " << nruns << ",\n    \"distinct_nontrivial\": " << traces.size() << ",\n    \"rule\": "
     << json_str(std::string("One evaluation is one simulated run: a plan generated from (VERIF_SEED, run index) and executed under the simulator. Workload: ") + e->workload + " Non-trivial: " + e->rule + " Distinct: by hash of the run's complete event log.") << ",\n    \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) ev << (i ? ", " : "") << json_str(samples[i]);
  ev << "],\n    \"nontrivial_runs\": " << nontriv << ",\n    \"runs_per_hour\": " << (uint64_t)per_h << ",\n    \"seeds_per_hour\": " << (uint64_t)per_h
     << ",\n    \"simulated_time\": {\"clock\": \"the library has no timers; simulated time is counted in library basic blocks executed and device operations served\", \"basic_blocks\": " << steps << ", \"device_operations\": " << io << ", \"task_switches\": " << sw << "}"
     << ",\n    \"faults_injected\": " << json_map(faults) << ",\n    \"rare_conditions_reached\": " << json_map(probes) << ",\n    \"operations\": " << json_map(ops)
     << ",\n    \"distinct_states\": " << states.size() << ",\n    \"distinct_states_measure\": \"hash of everything readable from an image after a step\""
     << ",\n    \"library_edges_reached\": " << edges << ",\n    \"library_edges_total\": " << emap.size()
     << ",\n    \"real_components\": \"all of /repo/src/pe_lib, compiled from the working tree; libstdc++ streams and containers; glibc iconv\""
     << ",\n    \"stubbed_components\": \"storage device under std::istream/std::ostream (simulated stream buffers), operator new/delete (simulated allocator), thread scheduler where threads are used\""
     << ",\n    \"minimiser_runs\": " << tried << ",\n    \"unreproducible\": " << unreproducible.size()
     << "\n  },\n  \"assumptions\": [\"sampled, not exhaustive: a clean batch is evidence for the explored plans only\"],\n  \"wall_s\": " << fmt("%.2f", now_s() - t0) << ",\n  \"violations\": " << (found ? 1 : 0) << "\n}\n";
  ev.close();
  printf("%s: %llu runs, %zu distinct non-trivial, %zu states, %llu/%zu edges, %.1f s (%.0f runs/h)\n", e->id, (unsigned long long)nruns, traces.size(), states.size(), (unsigned long long)edges, emap.size(), search_s, per_h);
  std::string fl;
  for (auto& kv : faults) fl += fmt(" %s=%llu", kv.first.c_str(), (unsigned long long)kv.second);
  printf("faults:%s\n", fl.empty() ? " none" : fl.c_str());
  for (auto& k : load_known(e->id)) {
    std::ifstream f(g_root + "/" + k.plan);
    std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    Plan p = Plan::parse(t);
    Outcome o = run_in_child(e, p, 120);
    if (is_violation(o) && o.cls == k.cls) printf("KNOWN-FINDING: property=%s %s\n", e->id, k.text.c_str());
  }
  if (found) {
    printf("run %llu (seed %llu): %s\n%s\n", (unsigned long long)best.index, (unsigned long long)seed, best.cls.c_str(), best.msg.c_str());
    printf("%s", minimal.text().c_str());
    printf("VIOLATION property=%s replay=%s\n", e->id, replay_path.c_str());
    return 1;
  }
  if (!unreproducible.empty()) {
    for (auto& u : unreproducible) fprintf(stderr, "run %llu failed in a worker but not in a fresh process: %s: %s\n", (unsigned long long)u.index, u.cls.c_str(), u.msg.c_str());
    return 2;
  }
  printf("held\n");
  return 0;
}

}  // namespace sim

using namespace sim;

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:exitcode=77:handle_abort=1:handle_sigfpe=1:quarantine_size_mb=16:malloc_context_size=2:symbolize=1:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:print_legend=0:max_malloc_fill_size=0";
}

int main(int argc, char** argv) {
  struct rlimit rl;
  if (!getenv("PESIM_NOASLR")) { setenv("PESIM_NOASLR", "1", 1); }
  getrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = 0;
  setrlimit(RLIMIT_CORE, &rl);
  std::vector<std::string> a(argv + 1, argv + argc);
  char buf[4096];
  ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
  g_self = std::string(buf, n > 0 ? n : 0);
  g_root = getenv("PESIM_ROOT") ? getenv("PESIM_ROOT") : "/verif";
  g_evid = getenv("PESIM_EVIDENCE") ? getenv("PESIM_EVIDENCE") : g_root + "/evidence";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 0) : 1;
  uint64_t runs = 0;
  int workers = 8;
  double cap = 0;
  std::vector<std::string> pos;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == "-v") g_verbose = true;
    else if (a[i] == "--seed") seed = strtoull(a[++i].c_str(), nullptr, 0);
    else if (a[i] == "--runs") runs = strtoull(a[++i].c_str(), nullptr, 0);
    else if (a[i] == "--workers") workers = atoi(a[++i].c_str());
    else if (a[i] == "--nomin") g_nomin = true;
    else if (a[i] == "--cap") cap = atof(a[++i].c_str());
    else pos.push_back(a[i]);
  }
  __asan_set_error_report_callback(asan_report);
  std::set_terminate(on_terminate);
  g_hang_hook = hang_hook;
  if (pos.empty()) { fprintf(stderr, "usage\n"); return 2; }
  if (pos[0] == "twin") { g_prop = "C13"; return twin_serve(); }
  if (pos[0] == "list") { for (auto e : all_execs()) printf("%s\n", e->id); return 0; }
  if (pos[0] == "replay") {
    std::ifstream f(pos.at(1));
    std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    Plan p = Plan::parse(t);
    const Exec* e = find_exec(p.property);
    if (!e) { fprintf(stderr, "unknown property %s\n", p.property.c_str()); return 2; }
    g_prop = e->id;
    Outcome o = run_in_child(e, p, 120);
    printf("class %s log %016llx\n%s\n", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    if (is_violation(o)) { printf("VIOLATION property=%s replay=%s\n", e->id, pos[1].c_str()); return 1; }
    return o.state == 5 ? 2 : 0;
  }
  const Exec* e = pos.size() > 1 ? find_exec(pos[1]) : nullptr;
  if (!e) { fprintf(stderr, "unknown property\n"); return 2; }
  g_prop = e->id;
  if (pos[0] == "plan") { printf("%s", make_plan(e, seed, strtoull(pos.at(2).c_str(), 0, 0), pos.size() > 3).text().c_str()); return 0; }
  if (pos[0] == "run") {
    Plan p = make_plan(e, seed, strtoull(pos.at(2).c_str(), 0, 0), pos.size() > 3);
    if (g_verbose) fprintf(stderr, "%s", p.text().c_str());
    Outcome o = run_in_child(e, p, 300);
    printf("state %d class %s log %016llx events %llu\n%s\n", o.state, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)o.n, o.msg.c_str());
    return o.state == 1 ? 0 : 1;
  }
  if (pos[0] == "hashes") {
    uint64_t k = strtoull(pos.at(2).c_str(), 0, 0);
    for (uint64_t i = 0; i < k; ++i) { Outcome o = run_in_child(e, make_plan(e, seed, i, pos.size() > 3), 120); printf("%llu %d %016llx\n", (unsigned long long)i, o.state, (unsigned long long)o.hash); }
    return 0;
  }
  if (pos[0] == "check") {
    bool th = pos.size() > 2 && pos[2] == "thorough";
    if (!runs) runs = th ? e->thorough_runs : e->quick_runs;
    if (!cap) cap = th ? 3600 : 500;
    return check(e, th, seed, runs, workers, cap);
  }
  return 2;
}
