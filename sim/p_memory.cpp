// C15: a failing allocation inside any call never corrupts or leaks.
#include "exec.h"
#include "apicalls.h"
#include "resmodel.h"
using namespace pe_bliss;

namespace sim {

static void gen15(Rng& r, Plan& p, bool th) {
  Plan q;
  bool hist = r.chance(2, 3);
  static const char* like[] = {"C08", "C08", "C02", "C03", "C04", "C05", "C06", "C07", "C01"};
  if (hist) gen_history(r, q, th, like[r.below(9)]);
  else q.add("new").set("s", 0).set("kind", r.chance(1, 4) ? (int64_t)r.below(9) : 100 + (int64_t)r.below(64)).set("seed", (int64_t)(r.next() >> 20)).set("dll", r.below(2)).set("align", 0x1000);
  size_t ncalls = api_calls().size(), nfile = file_calls().size();
  auto fault = [&](Op& o) {
    o.set("af", r.below(1000));
    int w = (int)r.below(8);
    if (w == 0) o.set("an", 2 + r.below(20));
    else if (w == 1) o.set("an", 1000000000);
    else o.a.erase("an");
  };
  auto call = [&] {
    Op& o = p.add(r.chance(1, 5) ? "file" : "call");
    o.set("s", 0).set("seed", (int64_t)(r.next() >> 20)).set("k", r.below(o.name == "file" ? nfile : ncalls));
    fault(o);
  };
  for (auto& o : q.ops) {
    Op x = o;
    x.a.erase("af");
    if ((x.name == "edit" || x.name == "section" || x.name == "header" || x.name == "rebase" || x.name == "save" || x.name == "remove" || x.name == "arena" || x.name == "stub") && r.chance(2, 3)) fault(x);
    if (x.name == "edit" && x.get("c") == 6 && x.get("man") && r.chance(1, 2)) x.set("sf", 1);
    p.ops.push_back(x);
    if (x.name != "new" && r.chance(1, 2)) call();
  }
  if (r.chance(1, 4)) p.add("obj").set("seed", (int64_t)(r.next() >> 20));
  int n = (hist ? 1 : 4) + (int)r.below(th ? 12 : 6);
  for (int i = 0; i < n; ++i) call();
}

namespace {
enum How { COMPLETED, REPORTED };
struct Faulted { How how; std::string text; bool fired; };
// performs fn with the allocation fault of `op`, given the number of allocations of a clean run
template <class F> Faulted with_fault(const Op& op, int64_t n, const std::string& what, F fn) {
  Faulted f{COMPLETED, "", false};
  t_alloc.count = 0;
  uint64_t f0 = t_alloc.failed;
  t_alloc.cfg.fail_at = n > 0 ? op.get("af") * n / 1000 : -1;
  t_alloc.cfg.fail_count = op.get("an", 1);
  try {
    f.text = fn();
    if (f.text.compare(0, 8, "refused:") == 0) f.how = REPORTED;
  } catch (const std::bad_alloc&) { f.how = REPORTED; f.text = "bad_alloc"; }
  catch (const Violation&) { t_alloc.cfg.fail_at = -1; throw; }
  catch (const std::exception& e) { t_alloc.cfg.fail_at = -1; violate("C15:alloc-escape", what + ": an allocation failure left the call as a foreign exception: " + e.what()); }
  catch (...) { t_alloc.cfg.fail_at = -1; violate("C15:alloc-escape", what + ": an allocation failure left the call as a foreign exception"); }
  t_alloc.cfg.fail_at = -1;
  f.fired = t_alloc.failed > f0;
  if (f.fired) fault_fired("alloc");
  if (f.fired) probe(f.how == REPORTED ? "alloc-failure-reported" : "alloc-failure-absorbed");
  return f;
}
std::string sections_core(const Facts& f, size_t n) {
  std::string r;
  for (size_t i = 0; i < f.secs.size() && i < n; ++i) { auto& s = f.secs[i]; r += esc(s.name) + fmt(" %x %x %zx %016llx\n", s.va, s.vsize, stripz(s.data).size(), (unsigned long long)fnv(stripz(s.data))); }
  return r;
}
}

static bool do_call(Session& s, const Op& op) {
  Slot* sp = s.slot(op);
  if (!sp) return false;
  const Call& c = api_calls()[(size_t)op.get("k") % api_calls().size()];
  std::string what = std::string("call ") + c.name;
  uint64_t seed = (uint64_t)op.get("seed");
  std::string pre = lib_everything(*sp->pe);
  std::unique_ptr<pe_base> clean(new pe_base(*sp->pe));
  t_alloc.count = 0;
  std::string want;
  want = perform(c, *clean, seed);
  int64_t n = t_alloc.count;
  std::string post = lib_everything(*clean);
  if (c.readonly && post != pre) s.bad("readonly", what + " changed the image: " + diff(pre, post));
  g_stats.ops[what]++;
  std::unique_ptr<pe_base> copy;
  if (!c.readonly) copy.reset(new pe_base(*sp->pe));
  pe_base& t = c.readonly ? *sp->pe : *copy;
  Facts before = read_facts(t);
  std::string coherent = incoherence(t);
  Faulted f = with_fault(op, n, what, [&] { return perform(c, t, seed); });
  s.note(what + fmt(" alloc %lld/%lld ", (long long)(n ? op.get("af") * n / 1000 : -1), (long long)n) + (f.how == REPORTED ? f.text : "completed"));
  if (f.fired) ++s.faulted;
  if (f.how == COMPLETED && f.text != want) s.bad("alloc-wrong-result", what + " completed although memory ran out, with another result: " + diff(want, f.text));
  if (f.how == REPORTED && !f.fired && f.text != want) s.bad("alloc-wrong-result", what + " gives " + f.text + " instead of " + want);
  std::string now = lib_everything(t), torn = incoherence(t);
  if (torn != coherent && !torn.empty()) s.bad("alloc-incoherent", what + " (" + (f.how == REPORTED ? f.text : "completed") + ") leaves " + torn);
  if (c.readonly) {
    if (now != pre) s.bad("alloc-readonly", what + " failed for lack of memory and changed the image: " + diff(pre, now));
  } else if (f.how == COMPLETED) {
    if (now != post) s.bad("alloc-wrong-result", what + " completed although memory ran out, with another image: " + diff(post, now));
  } else if (f.fired) {
    Facts g = read_facts(t);
    for (auto& k : kComponents)
      if (!c.touch.count(k) && !c.touch.count("hdr") && before.comp[k] != g.comp[k] && k != "dbg") s.bad("alloc-collateral", what + " failed for lack of memory and changed [" + k + "] " + diff(before.comp[k], g.comp[k]));
    if (!c.touch.count("hdr")) {
      KV a = before.hdr, b = g.hdr;
      for (auto& k : c.touch) if (comp_dir(k) >= 0) { a.erase(fmt("dir%02d", comp_dir(k))); b.erase(fmt("dir%02d", comp_dir(k))); }
      for (const char* k : {"size_of_image", "nsections"}) { a.erase(k); b.erase(k); }
      if (c.touch.count("imp")) { a.erase("dir12"); b.erase("dir12"); }
      if (c.touch.count("rel")) { a.erase("characteristics"); b.erase("characteristics"); a.erase("dll_characteristics"); b.erase("dll_characteristics"); }
      if (c.touch.count("rawptr")) for (const char* k : {"size_of_headers", "size_of_opt"}) { a.erase(k); b.erase(k); }
      if (a != b) s.bad("alloc-collateral", what + " failed for lack of memory and changed the header: " + diff(a, b));
      if (pad4(before.stub) != pad4(g.stub)) s.bad("alloc-collateral", what + " failed for lack of memory and changed the DOS stub");
    }
    if (c.touch.count("secs") && strcmp(c.name, "rebase")) {
      // section edits never change what the existing sections contain or where they are
      auto core = [](const Facts& x, size_t n) { std::string r; for (size_t i = 0; i < x.secs.size() && i < n; ++i) { auto& s = x.secs[i]; r += esc(s.name) + fmt(" %x %x %zx %016llx\n", s.va, s.chars, stripz(s.data).size(), (unsigned long long)fnv(stripz(s.data))); } return r; };
      std::string a = core(before, before.secs.size()), b = core(g, before.secs.size());
      if (a != b) s.bad("alloc-collateral", what + " failed for lack of memory and changed sections: " + diff(a, b));
      KV x = before.hdr, y = g.hdr;
      for (const char* k : {"size_of_image", "nsections", "file_alignment", "size_of_headers"}) { x.erase(k); y.erase(k); }
      if (x != y) s.bad("alloc-collateral", what + " failed for lack of memory and changed the header: " + diff(x, y));
      if (!strcmp(c.name, "add-section")) {
        for (auto& k : kComponents) if (before.comp[k] != g.comp[k] && k != "dbg") s.bad("alloc-collateral", what + " failed for lack of memory and changed [" + k + "] " + diff(before.comp[k], g.comp[k]));
        if (g.secs.size() != before.secs.size()) s.bad("alloc-collateral", what + " failed for lack of memory and changed the number of sections");
      }
    }
    if (!c.touch.count("secs")) {
      std::string a = sections_core(before, before.secs.size()), b = sections_core(g, before.secs.size());
      if (a != b) s.bad("alloc-collateral", what + " failed for lack of memory and changed sections: " + diff(a, b));
    }
  }
  if (f.how == REPORTED && f.fired && f.text != want) {
    bool rooms = !strncmp(c.name, "rebuild-", 8);   // these add a section first, so a repetition adds another one
    std::string again = perform(c, t, seed);
    if (!rooms) {
      if (again != want) s.bad("alloc-retry", what + " repeated after an allocation failure gives another result: " + diff(want, again));
      std::string fin = lib_everything(t);
      if (fin != post) s.bad("alloc-retry", what + " repeated after an allocation failure gives another image: " + diff(post, fin));
    } else if (again.compare(0, 3, want.substr(0, 3))) s.bad("alloc-retry", what + " repeated after an allocation failure: " + again + ", expected " + want);
    probe("alloc-failure-retried");
  }
  return true;
}

// a value object that stays while one edit after another fails for lack of memory and is repeated
static bool do_object(Session& s, const Op& op) {
  g_stats.ops["edits of one version object"]++;
  Rng fr((uint64_t)op.get("seed") * 31 + 7);
  int fired = 0;
  std::string p = version_object_problem(Rng((uint64_t)op.get("seed")), [&](const std::function<void()>& clean, const std::function<void()>& real) {
    t_alloc.count = 0;
    clean();
    int64_t n = t_alloc.count;
    Op o;
    o.set("af", fr.below(1000));
    if (fr.chance(1, 4)) o.set("an", 2 + fr.below(20));
    Faulted f = with_fault(o, n, "an edit of version information", [&]() -> std::string { real(); return "ok"; });
    if (f.fired) ++fired;
    return f.how == COMPLETED;
  });
  s.faulted += fired;
  s.note(fmt("version object, %d failing edits", fired));
  if (!p.empty()) s.bad("alloc-retry", p);
  return true;
}

static bool do_file(Session& s, const Op& op) {
  Slot* sp = s.slot(op);
  if (!sp || !sp->has_disk) return false;
  const FileCall& c = file_calls()[(size_t)op.get("k") % file_calls().size()];
  std::string what = std::string("file call ") + c.name;
  uint64_t seed = (uint64_t)op.get("seed");
  t_alloc.count = 0;
  std::string want = perform(c, sp->disk, seed);
  int64_t n = t_alloc.count;
  g_stats.ops[what]++;
  Faulted f = with_fault(op, n, what, [&] { return perform(c, sp->disk, seed); });
  s.note(what + fmt(" alloc %lld/%lld ", (long long)(n ? op.get("af") * n / 1000 : -1), (long long)n) + (f.how == REPORTED ? f.text : "completed"));
  if (f.fired) ++s.faulted;
  if (f.how == COMPLETED && f.text != want) s.bad("alloc-wrong-result", what + " completed although memory ran out, with another result: " + diff(want, f.text));
  std::string again = perform(c, sp->disk, seed);
  if (again != want) s.bad("alloc-retry", what + " repeated after an allocation failure gives another result: " + diff(want, again));
  return true;
}

static void run15(const Plan& p, RunInfo& info) {
  Session s("C15");
  s.var.poison = (unsigned char)(p.seed * 41 + 3);
  t_alloc.cfg.poison = s.var.poison;
  for (auto& op : p.ops) {
    bool ok;
    if (op.name == "call") ok = do_call(s, op);
    else if (op.name == "obj") ok = do_object(s, op);
    else if (op.name == "file") ok = do_file(s, op);
    else if ((ok = s.step(op))) g_stats.ops[op.name]++;
    if (ok) ++s.executed;
  }
  // everything involved stays usable: every image can still be read and saved
  for (auto& x : s.slots)
    if (x && x->pe) {
      lib_everything(*x->pe);
      try { s.save(*x->pe, 1); } catch (const pe_exception&) {}
    }
  info.nontrivial = s.faulted > 0;
}
static const Exec ex_C15 = {"C15", gen15, run15, 6000, 300000, "at least one allocation inside a library call failed.",
  "edit histories of all kinds in which most calls meet a failing allocation (the k-th, several from the k-th, or all from the k-th), plus every reader, viewer, typed resource call, file call, copy, assignment, rebuild, section and header call with the k-th allocation failing, followed by comparison with the clean outcome and by a retry.", "fault_enumeration", true};
static ExecReg reg_C15(&ex_C15);

}  // namespace sim
