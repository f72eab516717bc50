// C20: read-only views report what is stored, whatever happened before.
#include "exec.h"
#include "apicalls.h"
#include <algorithm>
using namespace pe_bliss;

namespace sim {
namespace {

int64_t off_of(const RefPe& p, uint64_t rva) {
  for (auto& s : p.secs)
    if (rva >= s.va && rva < (uint64_t)s.va + s.rawsize && s.rawptr + (rva - s.va) < p.bytes.size()) return (int64_t)(s.rawptr + (rva - s.va));
  return -1;
}
void put_n(std::string& b, int64_t at, uint64_t v, int w) { for (int i = 0; i < w; ++i) if (at >= 0 && (uint64_t)at + i < b.size()) b[at + i] = (char)(v >> (8 * i)); }
uint32_t get_4(const std::string& b, uint64_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) if (at + i < b.size()) v |= (uint32_t)(unsigned char)b[at + i] << (8 * i); return v; }
uint32_t any32(Rng& r) { static const uint32_t x[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff, 0x10000}; return r.chance(1, 3) ? x[r.below(7)] : (uint32_t)r.next(); }

// Other stored content with the same structure.
const char* kTweak[] = {"unwind", "function", "dotnet", "rich", "debug-entry", "debug-payload", "overlay", "header", "exception-count"};
bool tweak(std::string& b, int how, Rng& r) {
  RefPe p(b);
  if (!p.ok) return false;
  std::string e;
  switch (how % 9) {
    case 0: case 1: {
      auto d = p.dir(3);
      if (!d.first || d.second < 12) return false;
      uint32_t at = d.first + 12 * (uint32_t)r.below(d.second / 12);
      int64_t o = off_of(p, at);
      if (o < 0 || !get_4(b, o)) return false;
      if (how % 9 == 0) {
        int64_t u = off_of(p, get_4(b, o + 8));
        if (u < 0) return false;
        put_n(b, u, r.next(), 4);
      } else {
        uint32_t x = any32(r), y = any32(r);
        if (!x) x = 1;
        put_n(b, o, std::min(x, y ? y : x), 4);
        put_n(b, o + 4, std::max(x, y), 4);
      }
      return true;
    }
    case 2: {
      auto d = p.dir(14);
      int64_t o = d.first ? off_of(p, d.first) : -1;
      if (o < 0 || (uint64_t)o + 72 > b.size()) return false;
      for (int i = 4; i < 72; i += 4) if (r.chance(1, 3)) put_n(b, o + i, any32(r), 4);
      return true;
    }
    case 3: {
      if (p.stub.size() < 8) return false;
      for (int i = 0, n = 1 + (int)r.below(4); i < n; ++i) put_n(b, 64 + r.below(p.stub.size() / 4) * 4, any32(r), 4);
      return true;
    }
    case 4: {
      auto d = p.dir(6);
      if (!d.first || d.second < 28) return false;
      int64_t o = off_of(p, d.first + 28 * (uint32_t)r.below(d.second / 28));
      if (o < 0) return false;
      static const int f[] = {0, 4, 8, 20};
      put_n(b, o + f[r.below(4)], any32(r), 4);
      return true;
    }
    case 5: {
      auto d = p.dir(6);
      if (!d.first || d.second < 28) return false;
      int64_t o = off_of(p, d.first + 28 * (uint32_t)r.below(d.second / 28));
      if (o < 0 || get_4(b, o + 12) != 2 || get_4(b, o + 16) < 24) return false;
      uint64_t q = get_4(b, o + 24);
      if (q + 24 > b.size() || b.compare(q, 4, "RSDS")) return false;
      put_n(b, q + 4 + r.below(17), any32(r), 4);
      return true;
    }
    case 6: b += std::string(1 + r.below(700), (char)r.next()); return true;
    case 7: put_n(b, p.nt_off + 8, any32(r), 4); return true;
    default: {   // table ends early: a terminator in the middle
      auto d = p.dir(3);
      if (!d.first || d.second < 24) return false;
      int64_t o = off_of(p, d.first + 12 * (uint32_t)r.below(d.second / 12));
      if (o < 0) return false;
      put_n(b, o, 0, 4);
      return true;
    }
  }
}

bool same_view(const std::string& a, const std::string& b) { return a == b || (!a.compare(0, 5, "error") && !b.compare(0, 5, "error")); }

std::string ref_view(const RefPe& p, int k) {
  switch (k) {
    case 0: return p.component("dbg");
    case 1: return p.component("exc");
    case 2: return p.component("net");
    case 3: return p.component("rich");
    case 4: return "stub " + hexs(p.stub, 4096);
    default: {
      uint64_t end = p.size_of_headers;
      for (auto& s : p.secs) if (s.rawsize) end = std::max<uint64_t>(end, (uint64_t)s.rawptr + s.rawsize);
      return fmt("overlay %d", !p.secs.empty() && p.bytes.size() > end);
    }
  }
}
const char* kView[] = {"dbg", "exc", "net", "rich", "stub", "overlay"};
std::string lib_view(const pe_base& pe, int k) {
  if (k < 4) return lib_component(pe, kView[k]);
  if (k == 4) { std::string s; { Lib l; s = pe.get_stub_overlay(); } return "stub " + hexs(s, 4096); }
  bool o;
  { Lib l; o = pe.has_overlay(); }
  return fmt("overlay %d", (int)o);
}

// the presence questions agree with what is stored
std::string presence(const pe_base& pe, const RefPe& p) {
  Lib l;
  auto want = [&](unsigned i) { return i < p.ndirs && p.dir(i).first != 0; };
  if (pe.has_debug() != want(6)) return "has_debug";
  if (pe.has_exception_directory() != want(3)) return "has_exception_directory";
  if (pe.is_dotnet() != want(14)) return "is_dotnet";
  if (pe.has_security() != want(4)) return "has_security";
  return "";
}

// what sections say about themselves, whichever form of their data is mapped at the moment
std::string sections_view(const pe_base& pe, const RefPe& p, Rng& r) {
  auto& v = pe.get_image_sections();
  if (v.size() != p.secs.size()) return fmt("%zu sections instead of %zu", v.size(), p.secs.size());
  for (size_t i = 0; i < v.size(); ++i) {
    const section& s = v[i];
    const RefSec& q = p.secs[i];
    uint64_t extent = alup<uint64_t>(q.vsize ? q.vsize : q.rawsize, p.salign), n = 0;
    bool e1, e2, at, rawok, zero, virt;
    std::string name;
    {
      Lib l;
      e1 = s.empty();
      at = s.readable() == !!(q.chars & 0x40000000) && s.writeable() == !!(q.chars & 0x80000000u) && s.executable() == !!(q.chars & 0x20000000) && s.shared() == !!(q.chars & 0x10000000) && s.discardable() == !!(q.chars & 0x02000000);
      name = s.get_name();
      const std::string& d = s.get_raw_data();
      e2 = s.empty();
      n = d.size();
      rawok = n <= q.data.size() && !q.data.compare(0, n, d) && n >= std::min<uint64_t>(q.vsize ? q.vsize : q.rawsize, q.data.size());
      virt = zero = true;
      if (r.chance(1, 2)) {
        const std::string& w = s.get_virtual_data(p.salign);
        virt = w.size() == std::max<uint64_t>(extent, n) && !w.compare(0, n, q.data, 0, n);
        zero = w.find_first_not_of('\0', n) == std::string::npos;
        if (s.empty() != (n == 0)) return fmt("section %zu: empty() is wrong while virtual data is mapped", i);
      }
    }
    if (name != q.name) return fmt("section %zu: name ", i) + esc(name) + " instead of " + esc(q.name);
    if (e1 != (q.rawsize == 0) || e2 != e1) return fmt("section %zu: empty() is %d, then %d", i, (int)e1, (int)e2);
    if (!at) return fmt("section %zu: attributes disagree with %x", i, q.chars);
    if (!rawok) return fmt("section %zu: raw data (%llu bytes) is not what the file holds (%zu)", i, (unsigned long long)n, q.data.size());
    if (!virt || !zero) return fmt("section %zu: virtual data is not the raw data followed by zeros", i);
  }
  return "";
}

std::unique_ptr<pe_base> fresh_load(const std::string& b, int chunk) {
  static const uint32_t ch[] = {0, 4096, 512, 61, 16};
  IoCfg c;
  c.chunk = ch[chunk % 5];
  SimBuf sb(&b, nullptr, c);
  std::istream in(&sb);
  Lib l;
  return std::unique_ptr<pe_base>(new pe_base(pe_factory::create_pe(in)));
}

bool unrelated(const Call& c) {
  static const std::set<std::string> ok = {"save", "add-section", "expand-section", "update-sizes", "rebuild-imports", "rebuild-exports", "rebuild-relocations", "rebuild-resources", "rebuild-tls", "rebuild-config", "rebuild-bound"};
  return ok.count(c.name) != 0;
}

// Reads of a freshly loaded image in a random order, mixed with mapping, other
// read-only calls, unrelated edits, copies and failing allocations.
int look(const std::string& file, const Op& op) {
  Rng r((uint64_t)op.get("seed", 1));
  RefPe ref(file);
  if (!ref.ok) return 0;
  std::string want[6];
  for (int k = 0; k < 6; ++k) want[k] = ref_view(ref, k);
  std::unique_ptr<pe_base> pe = fresh_load(file, (int)op.get("chunk", 0));
  std::string done = "load";
  int n = 4 + (int)op.get("n", 12), judged = 0;
  bool edited = false;
  std::vector<size_t> ro, ed;
  for (size_t i = 0; i < api_calls().size(); ++i) {
    if (api_calls()[i].readonly) ro.push_back(i);
    else if (unrelated(api_calls()[i])) ed.push_back(i);
  }
  int64_t edits = op.get("edits", 0), af = op.get("af", -1);
  auto judge = [&](int k) {
    std::string got = lib_view(*pe, k);
    ++judged;
    EV("view %s %016llx after %s", kView[k], (unsigned long long)fnv(got), done.c_str());
    if (!same_view(want[k], got)) violate(std::string("C20:view-") + kView[k], std::string("[") + kView[k] + "] after " + done + ": stored and reported differ: " + diff(want[k], got));
  };
  for (int i = 0; i < n; ++i) {
    int w = (int)r.below(20);
    if (w < 9) judge((int)r.below(6));
    else if (w < 12) {
      auto& secs = static_cast<const pe_base&>(*pe).get_image_sections();
      if (secs.empty()) continue;
      const section& s = secs[r.below(secs.size())];
      if (r.chance(1, 2)) { Lib l; s.get_virtual_data(pe->get_section_alignment()); done += ", virtual data read"; }
      else { Lib l; s.get_raw_data(); done += ", raw data read"; }
    } else if (w < 16) {
      const Call& c = api_calls()[ro[r.below(ro.size())]];
      perform(c, *pe, r.next());
      done += std::string(", ") + c.name;
      g_stats.ops[c.name]++;
    } else if (w == 16 && edits > 0) {
      --edits;
      const Call& c = api_calls()[ed[r.below(ed.size())]];
      std::string o = perform(c, *pe, r.next());
      edited = true;
      done += std::string(", ") + c.name;
      probe("unrelated-edit");
      g_stats.ops[c.name]++;
    } else if (w == 17) {
      Lib l;
      std::unique_ptr<pe_base> c(new pe_base(*pe));
      if (r.chance(1, 2)) pe.swap(c);
      done += ", copy";
    } else if (w == 18 && af >= 0) {
      int k = (int)r.below(5);
      std::string got;
      t_alloc.count = 0;
      uint64_t f0 = t_alloc.failed;
      t_alloc.cfg.fail_at = (int64_t)r.below(1 + (uint64_t)af);
      t_alloc.cfg.fail_count = r.chance(1, 4) ? 1000000 : 1;
      bool out = false;
      try { got = lib_view(*pe, k); } catch (const std::bad_alloc&) { out = true; }
      t_alloc.cfg.fail_at = -1;
      if (t_alloc.failed > f0) fault_fired("alloc");
      done += ", reading with failing allocation";
      if (!out && t_alloc.failed == f0 && !same_view(want[k], got)) violate(std::string("C20:view-") + kView[k], std::string("[") + kView[k] + "] after " + done + ": " + diff(want[k], got));
    } else if (!edited) {
      std::string e = presence(*pe, ref);
      ++judged;
      if (!e.empty()) violate("C20:presence", e + " disagrees with the stored directory after " + done);
      e = sections_view(*pe, ref, r);
      if (!e.empty()) violate("C20:sections", e + " after " + done);
      probe("sections-view");
    }
  }
  for (int k = 0; k < 6; ++k) judge(k);
  // the raw debug payloads are the stored bytes
  if (true) {
    Lib l;
    auto m = pe->get_raw_debug_data_list();
    Seam q;
    for (auto& kv : m) {
      ++judged;
      if ((uint64_t)kv.first + kv.second.size() > file.size() || file.compare(kv.first, kv.second.size(), kv.second)) violate("C20:debug-bytes", fmt("raw debug data for file offset %x is not what the file holds there", (unsigned)kv.first));
    }
  }
  { Lib l; pe.reset(); }
  return judged;
}

std::string save_of(pe_base& pe) {
  std::string out;
  IoCfg c;
  SimBuf b(nullptr, &out, c);
  std::ostream os(&b);
  try { Lib l; rebuild_pe(pe, os); } catch (const pe_exception& e) { return std::string("refused ") + e.what(); }
  os.flush();
  return out;
}

// Reading never changes what would be saved.
void pure(const pe_base& image, const Op& op, const std::string& what) {
  Rng r((uint64_t)op.get("seed", 1));
  std::unique_ptr<pe_base> a, b;
  { Lib l; a.reset(new pe_base(image)); b.reset(new pe_base(image)); }
  std::string x = save_of(*a);
  std::vector<size_t> ro;
  for (size_t i = 0; i < api_calls().size(); ++i) if (api_calls()[i].readonly) ro.push_back(i);
  std::string done;
  int n = 1 + (int)op.get("n", 6);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 2)) { int k = (int)r.below(6); lib_view(*b, k); done += std::string(" ") + kView[k]; }
    else { const Call& c = api_calls()[ro[r.below(ro.size())]]; perform(c, *b, r.next()); done += std::string(" ") + c.name; g_stats.ops[c.name]++; }
  }
  std::string y = save_of(*b);
  EV("%s: save %016llx after%s %016llx", what.c_str(), (unsigned long long)fnv(x), done.c_str(), (unsigned long long)fnv(y));
  if (x != y) {
    size_t k = 0;
    while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
    violate("C20:reading-changes-save", what + fmt(": the saved file differs at offset %zx (sizes %zx, %zx) after only reading:", k, x.size(), y.size()) + done);
  }
  Lib l;
  a.reset();
  b.reset();
}
}  // namespace

static void gen20(Rng& r, Plan& p, bool th) {
  static const char* like[] = {"C08", "C01", "C02", "C04", "C07", "C05"};
  Plan q;
  gen_history(r, q, th, like[r.below(6)]);
  auto look_op = [&] {
    Op& o = p.add("look").set("s", 0).set("seed", (int64_t)(r.next() >> 20)).set("n", r.below(th ? 30 : 16)).set("chunk", r.below(5));
    if (r.chance(1, 2)) o.set("edits", 1 + r.below(4));
    if (r.chance(1, 4)) o.set("af", r.below(60));
    if (r.chance(1, 2)) { o.set("tw", 1 + r.below(4)).set("tseed", (int64_t)(r.next() >> 20)); }
  };
  for (auto& o : q.ops) {
    p.ops.push_back(o);
    Op& x = p.ops.back();
    if (x.name == "new") {
      // images whose views have something to show
      static const int64_t k[] = {6, 7, 4, 5, 0, 1};
      if (r.chance(5, 6)) x.set("kind", r.chance(1, 6) ? k[r.below(6)] : 100 + (int64_t)(r.below(64) | (r.chance(1, 2) ? 6 : 0) | (r.chance(1, 2) ? 24 : 0)));
      look_op();
      continue;
    }
    if (r.chance(1, 4)) look_op();
    if (r.chance(1, 4)) p.add("pure").set("s", 0).set("seed", (int64_t)(r.next() >> 20)).set("n", r.below(10));
  }
  look_op();
}

static void run20(const Plan& p, RunInfo& info) {
  Session s("C20");
  s.var.poison = (unsigned char)(p.seed * 23 + 9);
  t_alloc.cfg.poison = s.var.poison;
  int judged = 0;
  for (auto& op : p.ops) {
    if (op.name == "look") {
      Slot* sl = s.slot(op);
      if (!sl || !sl->has_disk) continue;
      std::string b = sl->disk;
      Rng r((uint64_t)op.get("tseed", 1));
      for (int i = 0; i < op.get("tw", 0); ++i) {
        int how = (int)r.below(9);
        std::string c = b;
        if (!tweak(c, how, r)) continue;
        probe(std::string("stored:") + kTweak[how]);
        b.swap(c);
      }
      judged += look(b, op);
      g_stats.ops["look"]++;
    } else if (op.name == "pure") {
      Slot* sl = s.slot(op);
      if (!sl || sl->f.secs.empty()) continue;
      pure(*sl->pe, op, "edited image");
      ++judged;
      g_stats.ops["pure"]++;
    } else if (s.step(op)) { ++s.executed; g_stats.ops[op.name]++; }
  }
  info.nontrivial = judged >= 3;
}
static const Exec ex_C20 = {"C20", gen20, run20, 12000, 700000, "at least three views were compared with the independent decoder.",
  "stored debug, unwind, .NET, rich header, stub and overlay content of all shapes with random field values, loaded through chunked streams and read in random orders and repetitions mixed with raw and virtual data reads, all other read-only calls, copies, unrelated edits and failing allocations; edit sessions with saves, restarts and crashes around it; saved bytes compared with and without reading.", "exploration", true};
static ExecReg reg_C20(&ex_C20);

}  // namespace sim
