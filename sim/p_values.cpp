// C13: saved bytes depend on nothing but the image. C16: copies are independent values.
#include "exec.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <pe_bliss.h>
#include <pe_bliss_resources.h>
using namespace pe_bliss;

namespace sim {

// ================================================================ C13
// Bytes of a saved file that belong to nothing must be zero.
static std::string gap_problem(const std::string& b) {
  RefPe r(b);
  if (!r.ok) return "";
  std::vector<char> used(b.size(), 0);
  auto mark = [&](uint64_t at, uint64_t n) { for (uint64_t i = at; i < at + n && i < used.size(); ++i) used[i] = 1; };
  mark(0, r.sec_off + r.secs.size() * 40ull);
  auto bd = r.dir(11);
  if (bd.first && !r.secs.empty() && bd.first < r.secs[0].va) mark(bd.first, bd.second);
  for (auto& s : r.secs) if (s.rawsize) mark(s.rawptr, s.rawsize);
  for (size_t i = 0; i < b.size(); ++i)
    if (!used[i] && b[i]) return fmt("byte %02x at file offset %zx belongs to no header and no section", (unsigned char)b[i], i);
  return "";
}

namespace {
struct Recorded {
  std::vector<std::string> saves;
  std::vector<std::string> finals;   // per slot: readable content
  std::string stopped;               // a violation of another property ended the history
  uint64_t executed = 0;
};
}

static void chatter(Session& s, Rng& r) {
  int n = (int)r.below(4);
  for (int k = 0; k < n; ++k) {
    int w = (int)r.below(8);
    Slot* sl = nullptr;
    for (size_t t = 0; t < s.slots.size() && !sl; ++t) { size_t i = (r.below(8) + t) % s.slots.size(); if (s.slots[i] && s.slots[i]->pe) sl = s.slots[i].get(); }
    if (!sl) return;
    if (w < 3) lib_component(*sl->pe, kComponents[r.below(11)]);
    else if (w == 3) {
      auto& v = sl->pe->get_image_sections();
      if (v.empty()) continue;
      const section& x = v[r.below(v.size())];
      Lib l;
      x.get_virtual_data(sl->pe->get_section_alignment());
    } else if (w == 4) {
      // an unrelated image is loaded, changed and saved
      Slot t;
      try {
        s.load(t, base_image(100 + (int)r.below(64), r.next() >> 20), r.next() >> 30);
        { Lib l; t.pe->set_stub_overlay("zzzzzzzz"); if (r.chance(1, 2)) t.pe->remove_directory(1); }
        s.save(*t.pe, r.next() >> 30);
      } catch (const pe_exception&) {}
    } else if (w == 5) {
      // an earlier save of the same image, with header options that move nothing
      uint32_t b11 = sl->f.hdr.count("dir11") ? (uint32_t)strtoul(sl->f.hdr["dir11"].c_str(), 0, 16) : 0;
      if (sl->f.secs.empty() || (b11 && b11 < sl->f.secs.front().va)) continue;
      try { s.save(*sl->pe, r.next() >> 30, false, false, true); probe("chatter:earlier-save"); } catch (const pe_exception&) {}
    } else if (w == 6) {
      std::string junk(1 + r.below(5000), (char)r.next());
      Lib l;
      entropy_calculator::calculate_entropy(junk.data(), junk.size());
    } else lib_everything(*sl->pe);
  }
}

static Recorded record(const Plan& p, unsigned char poison, uint64_t noise) {
  Session s("C13");
  s.var.poison = poison;
  s.var.noise = noise;
  s.keep_saves = true;
  t_alloc.cfg.poison = poison;
  Rng r(noise * 77 + 5);
  Recorded rec;
  for (auto& op : p.ops) {
    poison_stack(poison);
    try { if (s.step(op)) { ++s.executed; g_stats.ops[op.name]++; } }
    catch (const Violation& v) { rec.stopped = v.cls + " " + v.msg; break; }
    if (noise) chatter(s, r);
  }
  rec.saves.swap(s.saves);
  rec.executed = s.executed;
  if (rec.stopped.empty())
    for (auto& x : s.slots) {
      if (!x || !x->pe || x->f.secs.empty()) continue;
      std::string b;
      try { b = s.save(*x->pe, 4); } catch (const pe_exception& e) { b = std::string("refused ") + e.what(); }
      rec.saves.push_back(b);
      rec.finals.push_back(lib_everything(*x->pe));
    }
  return rec;
}

static std::string where(const std::string& a, const std::string& b) {
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
  return fmt("offset %zx, sizes %zx and %zx, bytes %s and %s", k, a.size(), b.size(), hexs(a.substr(k, 8)).c_str(), hexs(b.substr(k, 8)).c_str());
}

// ---- the twin: the same program with the library's uninitialised automatic variables zeroed
struct Twin {
  pid_t owner = 0;
  int to = -1, from = -1;
};
static Twin g_twin;
static void put_all(int fd, const std::string& s) {
  for (size_t k = 0; k < s.size();) {
    ssize_t n = ::write(fd, s.data() + k, s.size() - k);
    if (n <= 0) throw HarnessError("the twin process does not read");
    k += (size_t)n;
  }
}
static bool get_all(int fd, size_t n, std::string& out) {
  out.assign(n, 0);
  for (size_t k = 0; k < n;) {
    ssize_t r = ::read(fd, &out[k], n - k);
    if (r <= 0) return false;
    k += (size_t)r;
  }
  return true;
}
static void put_block(int fd, const std::string& s) {
  uint64_t n = s.size();
  put_all(fd, std::string((const char*)&n, 8) + s);
}
static bool get_block(int fd, std::string& out) {
  std::string h;
  if (!get_all(fd, 8, h)) return false;
  uint64_t n;
  memcpy(&n, h.data(), 8);
  return get_all(fd, n, out);
}
static void twin_start() {
  if (g_twin.owner == getpid()) return;
  char buf[4096];
  ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
  std::string exe = std::string(buf, n > 0 ? n : 0) + "-zero";
  int a[2], b[2];
  if (pipe(a) || pipe(b)) throw HarnessError("pipe");
  signal(SIGPIPE, SIG_IGN);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(a[0], 0);
    dup2(b[1], 1);
    for (int fd = 3; fd < 256; ++fd) close(fd);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    execl(exe.c_str(), exe.c_str(), "twin", (char*)0);
    _exit(127);
  }
  close(a[0]);
  close(b[1]);
  fcntl(a[1], F_SETFD, FD_CLOEXEC);
  fcntl(b[0], F_SETFD, FD_CLOEXEC);
  g_twin.owner = getpid();
  g_twin.to = a[1];
  g_twin.from = b[0];
}
// what the same history saves there: the outcome, then every saved file
static bool twin_ask(const Plan& q, int64_t pa, std::vector<std::string>& got) {
  twin_start();
  got.clear();
  put_block(g_twin.to, q.text());
  put_block(g_twin.to, std::string(1, (char)pa));
  std::string c;
  if (!get_block(g_twin.from, c) || c.size() != 8) { g_twin.owner = 0; return false; }
  uint64_t n;
  memcpy(&n, c.data(), 8);
  for (uint64_t i = 0; i < n; ++i) {
    if (!get_block(g_twin.from, c)) { g_twin.owner = 0; return false; }
    got.push_back(c);
  }
  return true;
}
int twin_serve() {
  std::string t, pa;
  while (get_block(0, t) && get_block(0, pa)) {
    t_alloc = AllocState();
    t_steps = 0;
    Recorded r = record(Plan::parse(t), (unsigned char)pa[0], 0);
    t_alloc.cfg = AllocCfg();
    uint64_t n = r.saves.size() + 1;
    put_block(1, std::string((const char*)&n, 8));
    put_block(1, r.stopped);
    for (auto& s : r.saves) put_block(1, s);
  }
  return 0;
}

static void gen13(Rng& r, Plan& p, bool thorough) {
  Plan q;
  gen_history(r, q, thorough, "C08");
  p.add("vary").set("pa", r.below(256)).set("pb", r.below(256)).set("noise", 1 + r.below(1u << 30));
  for (auto& o : q.ops) { Op x = o; x.a.erase("af"); x.a.erase("an"); p.ops.push_back(x); }
}
static void run13(const Plan& p, RunInfo& info) {
  Plan q = p;
  q.ops.clear();
  int64_t pa = 0x11, pb = 0xee, noise = 1;
  for (auto& o : p.ops) {
    if (o.name == "vary") { pa = o.get("pa"); pb = o.get("pb"); noise = o.get("noise", 1); }
    else q.ops.push_back(o);
  }
  if (pa == pb) pb = pa ^ 0xff;
  Recorded a = record(q, (unsigned char)pa, 0);
  EV("first: %zu saves, %llu steps", a.saves.size(), (unsigned long long)a.executed);
  Recorded b = record(q, (unsigned char)pb, (uint64_t)noise);
  fault_fired("memory-poison");
  size_t n = std::min(a.saves.size(), b.saves.size());
  for (size_t i = 0; i < n; ++i)
    if (a.saves[i] != b.saves[i]) violate("C13:differs", fmt("save %zu of the same edit history differs between two sessions: ", i) + where(a.saves[i], b.saves[i]));
  if (a.stopped != b.stopped) violate("C13:differs", "the same edit history ends differently in two sessions: '" + a.stopped + "' and '" + b.stopped + "'");
  if (a.saves.size() != b.saves.size()) violate("C13:differs", "the same edit history saves a different number of files");
  for (size_t i = 0; i < a.finals.size() && i < b.finals.size(); ++i)
    if (a.finals[i] != b.finals[i]) violate("C13:differs", fmt("image %zu reads differently after the same edit history: ", i) + diff(a.finals[i], b.finals[i]));
  std::vector<std::string> z;
  if (!twin_ask(q, pa, z) && !twin_ask(q, pa, z)) violate("C13:uninitialised", "with other values in uninitialised automatic variables the same edit history does not finish");
  fault_fired("stack-variables-zeroed");
  for (size_t i = 0; i < n && i + 1 < z.size(); ++i)
    if (a.saves[i] != z[i + 1]) violate("C13:uninitialised", fmt("save %zu differs when uninitialised automatic variables hold other values: ", i) + where(a.saves[i], z[i + 1]));
  if (z.size() != a.saves.size() + 1 || z[0] != a.stopped) violate("C13:uninitialised", "the same edit history ends differently when uninitialised automatic variables hold other values: '" + a.stopped + "' and '" + (z.empty() ? "" : z[0]) + "'");
  for (size_t i = 0; i < n; ++i) {
    std::string e = gap_problem(a.saves[i]);
    if (!e.empty()) violate("C13:gap", fmt("save %zu: ", i) + e);
    EV("save %zu %016llx", i, (unsigned long long)fnv(a.saves[i]));
  }
  info.nontrivial = n >= 1 && a.executed >= 3;
}
static const Exec ex13 = {"C13", gen13, run13, 11000, 600000, "at least one save was compared after three or more operations.",
  "edit histories over all directories executed twice: with different contents of fresh memory and stack, input and output chunking, interleaved reads, earlier saves and unrelated images; all saves compared byte for byte and gaps checked for zeros.", "exploration", false};
static ExecReg reg13(&ex13);

// ================================================================ C16
namespace {
template <class T>
void value_law(const std::string& cls, const T& made, const std::function<std::string(const T&)>& text, const std::function<void(T&)>& mutate, Rng& r) {
  std::unique_ptr<T> o(new T(made));
  std::string t0 = text(*o);
  auto same = [&](const T& x, const std::string& want, const char* what) {
    std::string g = text(x);
    if (g != want) violate("C16:value-" + cls, std::string(what) + ": " + diff(want, g));
  };
  std::unique_ptr<T> c;
  { Lib l; c.reset(new T(*o)); }
  same(*c, t0, "a copy differs from its original");
  { Lib l; mutate(*c); }
  std::string t1 = text(*c);
  same(*o, t0, "changing a copy changed the original");
  { Lib l; T& self = *c; *c = self; }
  same(*c, t1, "self-assignment changed the value");
  std::unique_ptr<T> d;
  { Lib l; d.reset(new T(*c)); *d = *o; }
  same(*d, t0, "an assigned value differs from its source");
  same(*c, t1, "assigning to a copy changed the value it was copied from");
  { Lib l; mutate(*o); }
  std::string t2 = text(*o);
  same(*d, t0, "changing the source changed a value assigned from it");
  { Lib l; o.reset(); }
  same(*d, t0, "destroying the source changed a value assigned from it");
  // assignment and copying that run out of memory
  for (int how = 0; how < 2; ++how) {
    t_alloc.count = 0;
    { Lib l; if (how) { T x(*d); } else { T x(*c); x = *d; } }
    int64_t n = t_alloc.count;
    if (!n) continue;
    std::unique_ptr<T> x;
    { Lib l; x.reset(new T(*c)); }
    t_alloc.count = 0;
    t_alloc.cfg.fail_at = (int64_t)r.below(n);
    uint64_t f0 = t_alloc.failed;
    try { Lib l; if (how) { T y(*d); } else *x = *d; }
    catch (const std::bad_alloc&) {}
    catch (const pe_exception&) {}
    t_alloc.cfg.fail_at = -1;
    if (t_alloc.failed > f0) fault_fired("alloc-in-copy");
    same(*d, t0, "a failed copy changed its source");
    same(*c, t1, "a failed copy changed another value");
    text(*x);   // still valid: readable
    if (how) same(*x, t1, "a failed copy changed another value");
    { Lib l; *x = *d; }
    same(*x, t0, "assignment repeated after a failure gives another value");
  }
  { Lib l; d.reset(); }
  same(*c, t1, "destroying an assigned value changed another value");
}

std::string hex(const std::string& s) { return fmt("%zu:%016llx", s.size(), (unsigned long long)fnv(s)); }
std::string sec_value(const section& s) {
  return s.get_name() + "|" + hex(std::string((const char*)&s.get_raw_header(), sizeof(pe_win::image_section_header))) + "|" + hex(s.get_raw_data());
}
std::string dir_value(const resource_directory& d) {
  std::string t = fmt("[%u %u %u %u ", d.get_characteristics(), d.get_timestamp(), d.get_major_version(), d.get_minor_version());
  for (auto& e : d.get_entry_list()) {
    t += e.is_named() ? "n" : "i";
    for (wchar_t c : e.get_name()) t += fmt("%x.", (unsigned)c);
    t += fmt("%u ", e.get_id());
    if (e.includes_data()) t += hex(e.get_data_entry().get_data()) + fmt("/%u ", e.get_data_entry().get_codepage());
    else t += dir_value(e.get_resource_directory());
  }
  return t + "]";
}
std::string dbg_value(const debug_info& d) {
  std::string t = fmt("%u %u %u %u %u %u %u %u k%d ", d.get_characteristics(), d.get_time_stamp(), d.get_major_version(), d.get_minor_version(), d.get_type_raw(), d.get_size_of_data(), d.get_rva_of_raw_data(), d.get_pointer_to_raw_data(), (int)d.get_advanced_info_type());
  switch (d.get_advanced_info_type()) {
    case debug_info::advanced_info_pdb_7_0: { auto x = d.get_advanced_debug_info<pdb_7_0_info>(); t += x.get_pdb_file_name() + fmt(" %u", x.get_age()); break; }
    case debug_info::advanced_info_pdb_2_0: { auto x = d.get_advanced_debug_info<pdb_2_0_info>(); t += x.get_pdb_file_name() + fmt(" %u %u", x.get_age(), x.get_signature()); break; }
    case debug_info::advanced_info_misc: { auto x = d.get_advanced_debug_info<misc_debug_info>(); t += x.is_unicode() ? "u" : x.get_data_ansi(); break; }
    case debug_info::advanced_info_coff: { auto x = d.get_advanced_debug_info<coff_debug_info>(); t += fmt("%u %zu", x.get_number_of_symbols(), x.get_symbols().size()); for (auto& y : x.get_symbols()) t += y.get_symbol() + "," + fmt("%u ", y.get_index()); break; }
    default: break;
  }
  return t;
}
}  // namespace

static void values_op(const Op& op, pe_base& pe, Rng& r) {
  int w = (int)op.get("w", 0);
  probe(fmt("value-class:%d", w));
  switch (w) {
    case 0: {
      auto& v = pe.get_image_sections();
      if (v.empty()) return;
      section s = v[r.below(v.size())];
      uint32_t sa = pe.get_section_alignment();
      bool map = r.chance(1, 2);
      uint32_t more = (uint32_t)r.below(0x2000);
      if (map) { s.set_virtual_size(s.get_virtual_size() + more); Lib l; static_cast<const section&>(s).get_virtual_data(sa); }
      int how = (int)r.below(5);
      value_law<section>("section", s, sec_value, [=](section& x) {
        if (how == 0) { std::string& d = x.get_virtual_data(sa); if (!d.empty()) d[d.size() / 3] ^= 0x5a; }
        else if (how == 1) { std::string& d = x.get_raw_data(); d += "more data"; }
        else if (how == 2) x.set_name("other");
        else if (how == 3) x.set_raw_data("abc");
        else { x.set_virtual_size(0x3000); x.get_virtual_data(sa); x.readable(!x.readable()); }
      }, r);
      break;
    }
    case 1: {
      resource_directory d;
      if (pe.has_resources() && r.chance(3, 4)) { Lib l; try { d = get_resources(pe); } catch (const pe_exception&) { } }
      if (d.get_entry_list().empty() || r.chance(1, 3)) {
        resource_directory_entry e, f;
        f.set_id((uint32_t)r.below(100));
        f.add_data_entry(resource_data_entry(std::string(r.below(200), 'q'), (uint32_t)r.below(2000)));
        resource_directory in;
        in.add_resource_directory_entry(f);
        e.set_name(r.chance(1, 4) ? L"" : L"some name that is long enough to live on the heap");
        e.add_resource_directory(in);
        d.add_resource_directory_entry(e);
        d.add_resource_directory_entry(f);
      }
      int how = (int)r.below(5);
      value_law<resource_directory>("resource-tree", d, dir_value, [=](resource_directory& x) {
        auto& l = x.get_entry_list();
        if (how == 0 && l.size() > 1) l.erase(l.begin());
        else if (how == 1) l.clear();
        else if (how == 2) {   // change the deepest data in place
          resource_directory* y = &x;
          while (!y->get_entry_list().empty()) {
            resource_directory_entry& e = y->get_entry_list().back();
            if (e.includes_data()) { e.get_data_entry().set_data(e.get_data_entry().get_data() + "changed"); e.get_data_entry().set_codepage(e.get_data_entry().get_codepage() + 1); break; }
            y = &e.get_resource_directory();
          }
          if (x.get_entry_list().empty()) x.set_timestamp(x.get_timestamp() + 1);
        } else if (how == 3) {   // an entry takes over its own child
          if (!l.empty() && !l.front().includes_data() && !l.front().get_resource_directory().get_entry_list().empty()) l.front() = l.front().get_resource_directory().get_entry_list().front();
          else x.set_timestamp(x.get_timestamp() + 1);
        } else { resource_directory_entry e; e.set_id(7777); e.add_resource_directory(x); x.add_resource_directory_entry(e); }
      }, r);
      break;
    }
    case 2: {
      debug_info_list v;
      if (pe.has_debug()) { Lib l; try { v = get_debug_information(pe); } catch (const pe_exception&) {} }
      pe_win::image_debug_directory raw = pe_win::image_debug_directory();
      raw.Type = 2;
      debug_info d(raw);
      pe_win::image_debug_misc m;
      if (!v.empty() && r.chance(3, 4)) d = v[r.below(v.size())];
      else { (void)m; }
      debug_info other = v.empty() ? debug_info(raw) : v[r.below(v.size())];
      value_law<debug_info>("debug-entry", d, dbg_value, [=](debug_info& x) { debug_info y(x); x = other; if (dbg_value(x) == dbg_value(y)) x = debug_info(); }, r);
      break;
    }
    case 3: {
      imported_functions_list v;
      { Lib l; try { v = get_imported_functions(pe); } catch (const pe_exception&) {} }
      import_library n; n.set_name("a fairly long library name.dll"); imported_function f; f.set_name("some rather long function name"); n.add_import(f); v.push_back(n);
      auto tx = [](const imported_functions_list& l) { std::string t; for (auto& x : l) { t += x.get_name() + fmt("%u %u %u:", x.get_timestamp(), x.get_rva_to_iat(), x.get_rva_to_original_iat()); for (auto& y : x.get_imported_functions()) t += y.get_name() + fmt("%u %u %llx,", y.get_hint(), y.get_ordinal(), (unsigned long long)y.get_iat_va()); } return t; };
      value_law<imported_functions_list>("imports", v, tx, [](imported_functions_list& l) { imported_function g; g.set_name("another"); l.back().add_import(g); l.front().set_name("changed"); }, r);
      break;
    }
    case 4: {
      tls_info t;
      if (pe.has_tls()) { Lib l; try { t = get_tls_info(pe); } catch (const pe_exception&) {} }
      t.add_tls_callback(0x1234);
      auto tx = [](const tls_info& i) { std::string s = fmt("%u %u %u %u %u %u ", i.get_raw_data_start_rva(), i.get_raw_data_end_rva(), i.get_index_rva(), i.get_callbacks_rva(), i.get_size_of_zero_fill(), i.get_characteristics()) + hex(i.get_raw_data()); for (auto c : i.get_tls_callbacks()) s += fmt(" %u", c); return s; };
      value_law<tls_info>("tls", t, tx, [](tls_info& i) { i.set_raw_data(i.get_raw_data() + "tail"); i.add_tls_callback(7); i.set_index_rva(i.get_index_rva() + 4); }, r);
      break;
    }
    case 5: {
      image_config_info i;
      if (pe.has_config()) { Lib l; try { i = get_image_config(pe); } catch (const pe_exception&) {} }
      i.add_se_handler_rva(0x1111);
      auto tx = [](const image_config_info& c) { std::string s = fmt("%u %u %llx ", c.get_time_stamp(), c.get_major_version(), (unsigned long long)c.get_security_cookie_va()); for (auto x : c.get_se_handler_rvas()) s += fmt(" %u", x); for (auto x : c.get_lock_prefix_rvas()) s += fmt(" L%u", x); return s; };
      value_law<image_config_info>("load-config", i, tx, [](image_config_info& c) { c.add_lock_prefix_rva(99); c.clear_se_handler_list(); c.set_time_stamp(c.get_time_stamp() + 1); }, r);
      break;
    }
    case 6: {
      export_info info;
      exported_functions_list v;
      if (pe.has_exports()) { Lib l; try { v = get_exported_functions(pe, info); } catch (const pe_exception&) {} }
      exported_function f; f.set_name("an exported function with a long name"); f.set_ordinal(77); f.set_rva(5); v.push_back(f);
      auto tx = [](const exported_functions_list& l) { std::string t; for (auto& x : l) t += x.get_name() + fmt("%u %u ", x.get_ordinal(), x.get_rva()) + x.get_forwarded_name() + ";"; return t; };
      value_law<exported_functions_list>("exports", v, tx, [](exported_functions_list& l) { l.back().set_forwarded_name("some.other function name to forward to"); l.erase(l.begin()); }, r);
      break;
    }
    default: {
      bound_import_module_list v;
      { Lib l; try { v = get_bound_import_module_list(pe); } catch (const pe_exception&) {} }
      bound_import b("module with a longer name.dll", 5); b.add_module_ref(bound_import_ref("forwarder with a longer name", 6)); v.push_back(b);
      auto tx = [](const bound_import_module_list& l) { std::string t; for (auto& x : l) { t += x.get_module_name() + fmt("%u:", x.get_timestamp()); for (auto& y : x.get_module_ref_list()) t += y.get_module_name() + fmt("%u,", y.get_timestamp()); } return t; };
      value_law<bound_import_module_list>("bound-imports", v, tx, [](bound_import_module_list& l) { l.back().get_module_ref_list().clear(); l.front().set_module_name("x"); }, r);
    }
  }
}

static void gen16(Rng& r, Plan& p, bool thorough) {
  Plan q;
  gen_history(r, q, thorough, "C08");
  int slots = 1;
  for (auto& o : q.ops) slots = std::max(slots, (int)o.get("s", 0) + 1);
  int total = slots + 1 + (int)r.below(2);
  for (auto& o : q.ops) {
    if (o.name == "copy") continue;
    Op x = o;
    x.a.erase("af");
    x.a.erase("an");
    if (x.name == "new" || x.name == "arena") { p.ops.push_back(x); continue; }
    if (x.name != "section" || p.ops.size() > 3) {
      if (r.chance(1, 3)) {
        Op& c = p.add("copy").set("s", r.below(total)).set("t", r.below(total)).set("how", r.below(4));
        if (r.chance(1, 4)) c.set("af", r.below(1000));
      }
      if (r.chance(1, 12)) p.add("drop").set("s", r.below(total));
      if (r.chance(1, 8)) p.add("value").set("s", r.below(total)).set("w", r.below(8)).set("seed", (int64_t)(r.next() >> 20));
    }
    x.set("s", r.below(total));
    p.ops.push_back(x);
  }
}

static void run16(const Plan& p, RunInfo& info) {
  Session s("C16");
  s.var.poison = (unsigned char)(p.seed * 37 + 1);
  t_alloc.cfg.poison = s.var.poison;
  std::vector<std::vector<Op>> line;       // per slot: the edits that made it, without copies
  auto seen = [&](size_t i) { return i < s.slots.size() && s.slots[i] && s.slots[i]->pe ? lib_everything(*s.slots[i]->pe) : std::string("-"); };
  std::vector<std::string> now;
  int copies = 0;
  for (auto& op : p.ops) {
    size_t i = (size_t)op.get("s", 0);
    size_t target = op.name == "copy" ? (size_t)op.get("t", 1) : i;
    now.resize(std::max<size_t>(std::max(now.size(), s.slots.size()), std::max(i, target) + 1), "-");
    line.resize(std::max(line.size(), now.size()));
    bool did = false;
    if (op.name == "copy") {
      if (!s.slot(op)) continue;
      while (s.slots.size() <= target) s.slots.emplace_back();
      int how = (int)op.get("how", 0);
      Slot& src = *s.slots[i];
      if (target == i) {
        // self-assignment
        std::string before = now[i];
        if (op.has("af")) {
          t_alloc.count = 0;
          { Lib l; pe_base x(*src.pe); }
          int64_t n = t_alloc.count;
          t_alloc.count = 0;
          t_alloc.cfg.fail_at = op.get("af") * n / 1000;
          uint64_t f0 = t_alloc.failed;
          try { Lib l; pe_base& self = *src.pe; *src.pe = self; } catch (const std::bad_alloc&) {}
          t_alloc.cfg.fail_at = -1;
          if (t_alloc.failed > f0) fault_fired("alloc-in-copy");
        } else { Lib l; pe_base& self = *src.pe; *src.pe = self; }
        if (seen(i) != before) violate("C16:self-assign", "self-assignment changed the image: " + diff(before, seen(i)));
        did = true;
      } else {
        bool assign = how != 0 && s.slots[target] && s.slots[target]->pe;
        if (op.has("af")) {
          // the copy runs out of memory, then is repeated
          t_alloc.count = 0;
          { Lib l; pe_base x(*src.pe); }
          int64_t n = t_alloc.count;
          std::string tb = now[target];
          t_alloc.count = 0;
          t_alloc.cfg.fail_at = op.get("af") * n / 1000;
          uint64_t f0 = t_alloc.failed;
          try { Lib l; if (assign) *s.slots[target]->pe = *src.pe; else { pe_base x(*src.pe); } } catch (const std::bad_alloc&) {}
          t_alloc.cfg.fail_at = -1;
          if (t_alloc.failed > f0) fault_fired("alloc-in-copy");
          if (seen(i) != now[i]) violate("C16:failed-copy", "a copy that ran out of memory changed its source: " + diff(now[i], seen(i)));
          if (assign) {
            std::string t = seen(target);   // readable, whatever it holds
            if (t != tb && t != now[i]) probe("failed-assignment-left-other-value");
            try { s.save(*s.slots[target]->pe, 1); } catch (const pe_exception&) {}
          }
        }
        if (how == 3 && assign) {           // exchange through the standard algorithm, three copies
          // leave the target with the source's value and a temporary with the old one
          std::vector<pe_base> pool;
          { Lib l; pool.push_back(*src.pe); pool.push_back(*s.slots[target]->pe); pool.erase(pool.begin() + 1); *s.slots[target]->pe = pool.back(); }
          Slot& d = *s.slots[target];
          d.f = src.f; d.disk = src.disk; d.has_disk = src.has_disk; d.disk_f = src.disk_f; d.place = src.place; d.disk_place = src.disk_place; d.imp_hosts = src.imp_hosts;
          d.arena_va = src.arena_va; d.next_sec = src.next_sec; d.used_end = src.used_end;
          did = true;
        } else did = s.step(op);
        if (did) {
          line[target] = line[i];
          ++copies;
          if (seen(target) != now[i]) violate("C16:copy", "a copy differs from its original: " + diff(now[i], seen(target)));
        }
      }
      g_stats.ops["copy"] += did;
    } else if (op.name == "drop") {
      if (!s.slot(op)) continue;
      int alive = 0;
      for (auto& x : s.slots) alive += x && x->pe;
      if (alive < 2) continue;
      { Lib l; s.slots[i]->pe.reset(); }
      s.slots[i].reset();
      line[i].clear();
      now[i] = "-";
      EV("drop %zu", i);
    } else if (op.name == "value") {
      if (!s.slot(op)) continue;
      Rng r((uint64_t)op.get("seed", 1));
      values_op(op, *s.slots[i]->pe, r);
      g_stats.ops["value"]++;
      ++copies;
    } else {
      if (op.name != "new" && !s.slot(op)) continue;
      try { did = s.step(op); }
      catch (const Violation& v) { EV("stopped: %s", v.cls.c_str()); return; }   // another property's concern
      Op x = op;
      x.set("s", 0);
      if (op.name == "new") line[i].clear();
      line[i].push_back(x);
      g_stats.ops[op.name] += did;
    }
    // nothing is visible in any other image
    now.resize(std::max(now.size(), s.slots.size()), "-");
    line.resize(now.size());
    for (size_t k = 0; k < now.size(); ++k) {
      std::string t = seen(k);
      if (k != target && t != now[k]) violate("C16:isolation", fmt("%s on image %zu changed image %zu: ", op.name.c_str(), target, k) + diff(now[k], t));
      now[k] = t;
    }
  }
  // every image saves to what a never-copied image with the same edits saves to
  for (size_t k = 0; k < s.slots.size(); ++k) {
    if (!s.slots[k] || !s.slots[k]->pe) continue;
    Session f("C16");
    f.var.poison = (unsigned char)~s.var.poison;
    t_alloc.cfg.poison = f.var.poison;
    bool ok = true;
    for (auto& o : line[k]) { try { f.step(o); } catch (const Violation& v) { EV("stopped: %s", v.cls.c_str()); ok = false; break; } }
    if (!ok || f.slots.empty() || !f.slots[0] || !f.slots[0]->pe) continue;
    std::string a, b, ea, eb;
    if (s.slots[k]->f.secs.empty()) continue;
    try { a = s.save(*s.slots[k]->pe, 5); } catch (const pe_exception& e) { ea = e.what(); }
    try { b = f.save(*f.slots[0]->pe, 9); } catch (const pe_exception& e) { eb = e.what(); }
    if (ea != eb) violate("C16:lineage", fmt("image %zu: saving ends with '%s', a never-copied image with the same edits ends with '%s'", k, ea.c_str(), eb.c_str()));
    if (a != b) violate("C16:lineage", fmt("image %zu saves to other bytes than a never-copied image with the same edits: ", k) + where(a, b));
    EV("image %zu %016llx", k, (unsigned long long)fnv(a));
  }
  info.nontrivial = copies >= 1;
}
static const Exec ex16 = {"C16", gen16, run16, 8000, 500000, "at least one copy or value-class exercise was executed.",
  "edit histories over several images that are copied, assigned, self-assigned and dropped, with copies that run out of memory; every other image compared after every step, and every image finally compared with a never-copied replay of its own edits; value laws for eight value classes.", "fault_enumeration", false};
static ExecReg reg16(&ex16);

}  // namespace sim
