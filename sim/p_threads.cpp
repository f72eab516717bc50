// C17: threads working on their own images never affect each other.
// Real threads, one running at a time; who runs next is decided at every
// instrumented basic block, stream operation and lock operation of the library.
#include "exec.h"
#include "apicalls.h"
#include "seams.h"
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
#include <thread>
using namespace pe_bliss;

namespace sim {

extern uint32_t g_edge_now;

namespace {
constexpr int kMax = 4;

struct Sched {
  int n = 0, cur = -1;
  sem_t sem[kMax], main_sem;
  bool done[kMax];
  int prio[kMax];
  Rng r{1};
  int mode = 0;            // 0 random intervals, 1 chosen edges, 2 priorities with change points, 3 at stream/lock operations
  uint64_t mean = 100, left = 0, edge_mod = 97, edge_pick = 0;
  std::vector<uint64_t> change;   // mode 2: steps at which the running thread is demoted
  size_t next_change = 0;
  int low = 0;
  uint64_t steps = 0, switches = 0, max_switches = 2000;
  uint64_t hash = 14695981039346656037ull;
  int64_t pinned_down = 0;
} *g_sched = nullptr;
thread_local int t_me = -1;
thread_local int t_atomic = 0;     // scheduler or initialiser code: no preemption

uint64_t interval(Sched& s) { return s.mean <= 1 ? 1 : 1 + s.r.below(2 * s.mean); }

int runnable(Sched& s, int except) {
  int c[kMax], k = 0;
  for (int i = 0; i < s.n; ++i) if (!s.done[i] && i != except) c[k++] = i;
  if (!k) return -1;
  if (s.mode == 2) {
    int best = c[0];
    for (int i = 1; i < k; ++i) if (s.prio[c[i]] > s.prio[best]) best = c[i];
    return best;
  }
  return c[s.r.below(k)];
}

void hand_over(Sched& s, int to) {
  int me = t_me;
  uint64_t rec[2] = {s.steps, (uint64_t)to};
  s.hash = fnv(rec, sizeof rec, s.hash);
  ++s.switches;
  ++g_stats.switches;
  s.cur = to;
  sem_post(&s.sem[to]);
  while (sem_wait(&s.sem[me]) != 0) {}
}

const char* const kWhere[] = {"preempted-in-code", "preempted-in-stream-operation", "preempted-at-lock-or-conversion"};

void on_yield(int kind) {
  Sched* s = g_sched;
  if (!s || t_atomic || t_me < 0) return;
  ++s->steps;
  bool sw = false;
  if (s->mode == 2) {
    if (s->next_change < s->change.size() && s->steps >= s->change[s->next_change]) { ++s->next_change; s->prio[t_me] = --s->low; sw = true; }
  } else if (s->switches < s->max_switches) {
    if (s->mode == 1 && kind == 0) sw = g_edge_now % s->edge_mod == s->edge_pick;
    else if (s->mode == 3) sw = kind != 0 && s->r.chance(1, 2);
    if (s->mode != 3 && !sw && --s->left == 0) { s->left = interval(*s); sw = true; }
  }
  if (!sw) return;
  Seam seam;
  ++t_atomic;
  int to = runnable(*s, t_me);
  if (to >= 0 && (s->mode != 2 || s->prio[to] > s->prio[t_me])) {
    fault_fired(s->mode == 2 ? "thread-stalled" : kWhere[kind]);
    hand_over(*s, to);
  }
  --t_atomic;
}
}  // namespace

// Somebody else holds what the running task needs: let others run.
bool task_blocked() {
  Sched* s = g_sched;
  if (!s || t_me < 0) return false;
  Seam seam;
  ++t_atomic;
  static uint64_t spins;
  int to = runnable(*s, t_me);
  if (to < 0 || ++spins > 2000000) on_hang();
  if (s->mode == 2) s->prio[t_me] = --s->low;
  fault_fired("waited-for-lock");
  hand_over(*s, to);
  --t_atomic;
  return true;
}
bool in_task() { return g_sched && t_me >= 0; }
void task_atomic(int d) { t_atomic += d; }

namespace {
struct Prog {
  int how = 0;                      // 0 own file, 1 copy of the common image, 2 assigned from it, 3 session only
  Op image;
  std::vector<const Op*> ops;
};
struct Result { std::vector<std::string> steps; std::vector<std::string> names; uint64_t yields = 0; };

std::string brief(const std::string& s) { return s.size() < 200 ? s : fmt("%zu:%016llx", s.size(), (unsigned long long)fnv(s)); }

std::unique_ptr<pe_base> load_bytes(const std::string& b, uint32_t chunk) {
  IoCfg c;
  c.chunk = chunk;
  SimBuf sb(&b, nullptr, c);
  std::istream in(&sb);
  Lib l;
  return std::unique_ptr<pe_base>(new pe_base(pe_factory::create_pe(in)));
}

// the work of one thread; `mine`: its own copy of the common image (or null)
void work(const Prog& p, std::unique_ptr<pe_base> mine, unsigned char poison, Result& out) {
  t_alloc = AllocState();
  t_alloc.cfg.poison = poison;
  t_in_lib = t_in_seam = 0;
  t_step_budget = 0;
  Session s("C17");
  s.in_task = true;
  s.keep_saves = true;
  s.var.poison = poison;
  auto add = [&](const std::string& name, const std::string& r) { out.names.push_back(name); out.steps.push_back(brief(r)); };
  auto guarded = [&](const std::string& name, const std::function<std::string()>& fn) {
    std::string r;
    try { r = fn(); }
    catch (const std::bad_alloc&) { r = "bad_alloc"; }
    catch (const Violation& v) { r = "violation " + v.cls + " " + v.msg; }
    catch (const std::exception& e) { r = std::string("exception ") + e.what(); }
    t_alloc.cfg.fail_at = -1;
    add(name, r);
  };
  std::string bytes;
  if (p.how != 3) bytes = image_of(p.image);
  if (!mine && p.how != 3) guarded("load", [&] { mine = load_bytes(bytes, p.image.get("chunk", 0)); return std::string("ok"); });
  for (auto op : p.ops) {
    if (op->name == "call") {
      if (!mine) continue;
      const Call& c = api_calls()[(size_t)op->get("k") % api_calls().size()];
      guarded(c.name, [&] {
        if (op->has("af")) { t_alloc.count = 0; t_alloc.cfg.fail_at = op->get("af"); t_alloc.cfg.fail_count = op->get("an", 1); }
        uint64_t f0 = t_alloc.failed;
        struct F { uint64_t f; ~F() { if (t_alloc.failed > f) fault_fired("alloc"); } } f{f0};
        return perform(c, *mine, (uint64_t)op->get("seed"));
      });
    } else if (op->name == "file") {
      if (bytes.empty()) continue;
      const FileCall& c = file_calls()[(size_t)op->get("k") % file_calls().size()];
      guarded(c.name, [&] { return perform(c, bytes, (uint64_t)op->get("seed")); });
    } else {
      guarded(op->name, [&] { bool ok = s.step(*op); return std::string(ok ? "done " : "skipped ") + fmt("%016llx", (unsigned long long)s.trace); });
    }
  }
  if (mine) {
    guarded("everything", [&] { return lib_everything(*mine); });
    guarded("save", [&]() -> std::string { try { return s.save(*mine, 2); } catch (const pe_exception& e) { return std::string("refused ") + e.what(); } });
  }
  for (size_t i = 0; i < s.saves.size(); ++i) add(fmt("saved file %zu", i), s.saves[i]);
  for (auto& x : s.slots) if (x && x->pe) guarded("session image", [&] { return lib_everything(*x->pe); });
  { Lib l; mine.reset(); }
}

std::unique_ptr<pe_base> make_common(const Op* c) {
  if (!c) return nullptr;
  std::unique_ptr<pe_base> pe = load_bytes(image_of(*c), 0);
  Rng r((uint64_t)c->get("pre", 0));
  for (int i = 0; i < c->get("npre", 0); ++i) {
    const Call& k = api_calls()[r.below(api_calls().size())];
    try { perform(k, *pe, r.next()); } catch (const std::bad_alloc&) {}
  }
  lib_everything(*pe);
  return pe;
}
std::unique_ptr<pe_base> take(const Prog& p, const pe_base* common) {
  if (!common || (p.how != 1 && p.how != 2)) return nullptr;
  Lib l;
  if (p.how == 1) return std::unique_ptr<pe_base>(new pe_base(*common));
  std::unique_ptr<pe_base> d(common->get_pe_type() == pe_type_32 ? new pe_base(pe_properties_32()) : new pe_base(pe_properties_64()));
  *d = *common;
  return d;
}

struct Start { Sched* s; int me; const Prog* p; std::unique_ptr<pe_base>* mine; unsigned char poison; Result* out; };
void* thread_main(void* a) {
  Start& st = *(Start*)a;
  while (sem_wait(&st.s->sem[st.me]) != 0) {}
  t_me = st.me;
  t_atomic = 0;
  t_yield_hook = on_yield;
  work(*st.p, std::move(*st.mine), st.poison, *st.out);
  t_yield_hook = nullptr;
  ++t_atomic;
  Sched& s = *st.s;
  s.done[st.me] = true;
  uint64_t rec[2] = {s.steps, 100};
  s.hash = fnv(rec, sizeof rec, s.hash);
  int to = runnable(s, st.me);
  if (to >= 0) { s.cur = to; sem_post(&s.sem[to]); }
  else sem_post(&s.main_sem);
  return nullptr;
}
thread_local uint64_t t_count;
void count_yield(int) { ++t_count; }

void together(const std::vector<Prog>& progs, std::vector<std::unique_ptr<pe_base>>& mine, unsigned char poison, std::vector<Result>& res, const Op* so, uint64_t total) {
  Sched s;
  s.n = (int)progs.size();
  Rng r(so ? (uint64_t)so->get("seed", 1) : 1);
  s.r = Rng(r.next());
  s.mode = so ? (int)(so->get("mode", 0) & 3) : 0;
  s.mean = so ? std::max<int64_t>(1, so->get("mean", 100)) : 100;
  s.max_switches = so ? so->get("max", 2000) : 2000;
  s.edge_mod = so ? std::max<int64_t>(1, so->get("emod", 97)) : 97;
  s.edge_pick = s.r.below(s.edge_mod);
  if (s.mode == 1) s.left = ~0ull; else s.left = interval(s);
  int d = so ? (int)so->get("d", 2) : 2;
  for (int i = 0; i < d; ++i) s.change.push_back(s.r.below(total + 1));
  std::sort(s.change.begin(), s.change.end());
  std::vector<int> order;
  for (int i = 0; i < s.n; ++i) order.push_back(i);
  for (int i = s.n - 1; i > 0; --i) std::swap(order[i], order[s.r.below(i + 1)]);
  for (int i = 0; i < s.n; ++i) { sem_init(&s.sem[i], 0, 0); s.done[i] = false; s.prio[i] = order[i] + 1; }
  sem_init(&s.main_sem, 0, 0);
  g_sched = &s;
  std::vector<Start> st;
  std::vector<pthread_t> th(s.n);
  for (int i = 0; i < s.n; ++i) st.push_back(Start{&s, i, &progs[i], &mine[i], poison, &res[i]});
  for (int i = 0; i < s.n; ++i)
    if (pthread_create(&th[i], nullptr, thread_main, &st[i]) != 0) throw HarnessError("cannot start a thread");
  int first = runnable(s, -1);
  s.cur = first;
  sem_post(&s.sem[first]);
  while (sem_wait(&s.main_sem) != 0) {}
  for (int i = 0; i < s.n; ++i) pthread_join(th[i], nullptr);
  g_sched = nullptr;
  EV("schedule %llu steps %llu switches %016llx", (unsigned long long)s.steps, (unsigned long long)s.switches, (unsigned long long)s.hash);
  g_stats.states.insert(s.hash);
  for (int i = 0; i < s.n; ++i) sem_destroy(&s.sem[i]);
  sem_destroy(&s.main_sem);
}
}  // namespace

static void gen17(Rng& r, Plan& p, bool th) {
  int n = 2 + (int)r.below(r.chance(1, 3) ? 3 : 1);
  bool common = r.chance(1, 2);
  static const int64_t means[] = {1, 2, 5, 20, 100, 500, 3000, 20000};
  static const int64_t mods[] = {3, 17, 61, 211, 797};
  Op& so = p.add("sched").set("seed", (int64_t)(r.next() >> 20)).set("mode", r.below(4)).set("mean", means[r.below(8)]).set("emod", mods[r.below(5)]).set("d", 1 + r.below(4));
  so.set("max", r.chance(1, 2) ? 300 : th ? 6000 : 1500);
  if (common) {
    Op& c = p.add("common");
    pick_image(r, c);
    if (r.chance(1, 2)) c.set("npre", 1 + r.below(4)).set("pre", (int64_t)(r.next() >> 20));
  }
  Op im;
  pick_image(r, im);
  bool same = r.chance(1, 2);          // all threads work on the same kind of file
  bool mirror = r.chance(1, 3);        // all threads do the same things with different arguments
  std::vector<int64_t> ks;
  size_t ncalls = api_calls().size();
  for (int i = 0; i < 12; ++i) ks.push_back(r.below(ncalls));
  for (int t = 0; t < n; ++t) {
    Op& o = p.add("task").set("thr", t);
    if (same) { Op x = im; for (auto& kv : x.a) o.set(kv.first.c_str(), kv.second); }
    else pick_image(r, o);
    bool sess = r.chance(1, 3);
    o.set("how", common && r.chance(3, 4) ? 1 + (int64_t)r.below(2) : sess ? 3 : 0).set("chunk", r.chance(1, 2) ? 0 : 512);
    if (sess) {
      Plan q;
      static const char* like[] = {"C08", "C02", "C03", "C04", "C05", "C06", "C07", "C01"};
      gen_history(r, q, false, like[r.below(8)]);
      size_t m = std::min<size_t>(q.ops.size(), 2 + r.below(th ? 14 : 7));
      for (size_t i = 0; i < m; ++i) { p.ops.push_back(q.ops[i]); p.ops.back().set("thr", t); }
    }
    int c = 2 + (int)r.below(th ? 12 : 6);
    for (int i = 0; i < c; ++i) {
      if (r.chance(1, 8)) { p.add("file").set("thr", t).set("k", r.below(file_calls().size())).set("seed", (int64_t)(r.next() >> 20)); continue; }
      Op& q = p.add("call").set("thr", t).set("k", mirror ? ks[i % 12] : (int64_t)r.below(ncalls)).set("seed", (int64_t)(r.next() >> 20));
      if (r.chance(1, 10)) { q.set("af", r.below(120)); if (r.chance(1, 4)) q.set("an", 1 + r.below(40)); }
    }
  }
}

static void run17(const Plan& p, RunInfo& info) {
  const Op *so = nullptr, *co = nullptr;
  std::map<int64_t, Prog> by;
  for (auto& o : p.ops) {
    if (o.name == "sched") so = &o;
    else if (o.name == "common") co = &o;
    else if (o.name == "task") { Prog& g = by[o.get("thr", 0)]; g.how = (int)(o.get("how", 0) & 3); g.image = o; }
  }
  for (auto& o : p.ops)
    if (o.name != "sched" && o.name != "common" && o.name != "task" && by.count(o.get("thr", 0))) by[o.get("thr", 0)].ops.push_back(&o);
  std::vector<Prog> progs;
  for (auto& kv : by) if (progs.size() < kMax) { progs.push_back(kv.second); if (!co && (kv.second.how == 1 || kv.second.how == 2)) progs.back().how = 0; }
  if (progs.empty()) return;
  unsigned char poison = (unsigned char)(p.seed * 13 + 5);
  t_alloc.cfg.poison = poison;
  std::unique_ptr<pe_base> common;
  // alone, each from its own fresh common image
  std::vector<Result> alone(progs.size()), conc(progs.size());
  uint64_t total = 0;
  for (size_t i = 0; i < progs.size(); ++i) {
    t_count = 0;
    std::unique_ptr<pe_base> c = make_common(co), mine = take(progs[i], c.get());
    t_yield_hook = count_yield;
    work(progs[i], std::move(mine), poison, alone[i]);
    t_yield_hook = nullptr;
    t_alloc.cfg.poison = poison;
    total += t_count;
    { Lib l; c.reset(); }
  }
  // all together, from copies of one common image
  common = make_common(co);
  std::string pre = common ? lib_everything(*common) : "";
  std::vector<std::unique_ptr<pe_base>> mine;
  for (auto& g : progs) mine.push_back(take(g, common.get()));
  bool drop = so && (so->get("seed", 0) & 1);
  if (drop) { Lib l; common.reset(); }       // the copies must not need the original
  uint64_t sw0 = g_stats.switches;
  together(progs, mine, poison, conc, so, total);
  for (size_t i = 0; i < progs.size(); ++i) {
    for (size_t j = 0; j < alone[i].steps.size() && j < conc[i].steps.size(); ++j) {
      EV("thread %zu %s %s", i, conc[i].names[j].c_str(), conc[i].steps[j].c_str());
      if (alone[i].steps[j] != conc[i].steps[j] || alone[i].names[j] != conc[i].names[j])
        violate("C17:interference", fmt("thread %zu of %zu, step %zu (%s): alone it obtains ", i, progs.size(), j, alone[i].names[j].c_str()) + alone[i].steps[j] + ", together with the others " + conc[i].steps[j]);
      g_stats.ops[conc[i].names[j].compare(0, 10, "saved file") ? conc[i].names[j] : "saved file"]++;
    }
    if (alone[i].steps.size() != conc[i].steps.size()) violate("C17:interference", fmt("thread %zu performs %zu steps alone and %zu together with the others", i, alone[i].steps.size(), conc[i].steps.size()));
  }
  if (common) {
    std::string post = lib_everything(*common);
    if (pre != post) violate("C17:interference", "threads working on copies changed the common image: " + diff(pre, post));
    Lib l;
    common.reset();
  }
  if (g_stats.switches - sw0 > 0) probe(co ? "copies-of-one-image" : "separate-images");
  info.nontrivial = g_stats.switches - sw0 >= 2;
}
static const Exec ex_C17 = {"C17", gen17, run17, 6000, 200000, "control changed hands at least twice while threads were inside library calls.",
  "two to four real threads, of which exactly one runs at a time, each executing its own sequence of calls or edit session on its own image or on its copy of one common image; a seeded scheduler decides at every basic block, stream operation and lock operation whether another thread runs next (random intervals, chosen code locations, priorities with change points, stream operations only); every thread's results and saved bytes are compared with the same work done alone.", "exploration", false, true};
static ExecReg reg_C17(&ex_C17);

}  // namespace sim
