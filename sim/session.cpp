#include "session.h"
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace pe_bliss;

namespace sim {

int comp_dir(const std::string& c) {
  static const std::map<std::string, int> m = {{"exp", 0}, {"imp", 1}, {"res", 2}, {"exc", 3}, {"rel", 5}, {"dbg", 6}, {"tls", 9}, {"cfg", 10}, {"bnd", 11}, {"net", 14}};
  auto i = m.find(c);
  return i == m.end() ? -1 : i->second;
}

Facts read_facts(const pe_base& pe, const std::vector<std::string>* comps) {
  Facts f;
  f.hdr = lib_header_raw(pe);
  {
    Lib l;
    const pe_base& p = pe;
    f.stub = p.get_stub_overlay();
    f.overlay = p.has_overlay();
    f.dos = std::string((const char*)&p.get_dos_header(), 64);
    f.full = p.get_full_headers_data();
  }
  f.secs = lib_sections(pe);
  for (auto& c : comps ? *comps : kComponents) f.comp[c] = lib_component(pe, c);
  return f;
}

static bool same_comp(const std::string& a, const std::string& b) {
  if (a.compare(0, 5, "error") == 0 && b.compare(0, 5, "error") == 0) return true;
  return a == b;
}
static std::string sec_text(const LibSec& s) { return "name=" + esc(s.name) + fmt(" va=%x vsize=%x raw=%x chars=%x data=%016llx/%zx", s.va, s.vsize, s.rawsize, s.chars, (unsigned long long)fnv(stripz(s.data)), stripz(s.data).size()); }
static std::string secs_text(const std::vector<LibSec>& v) { std::string r; for (auto& s : v) r += sec_text(s) + "\n"; return r; }
std::string pad4(std::string s) { while (s.size() % 4) s.push_back('\0'); return s; }

std::string facts_diff(const Facts& w, const Facts& g, const std::set<std::string>& sh, const std::set<std::string>& sc) {
  for (auto& kv : w.comp)
    if (!sc.count(kv.first) && g.comp.count(kv.first) && !same_comp(kv.second, g.comp.at(kv.first))) return "[" + kv.first + "] " + diff(kv.second, g.comp.at(kv.first));
  KV a = w.hdr, b = g.hdr;
  for (auto& k : sh) { a.erase(k); b.erase(k); }
  if (a != b) return "[header] " + diff(a, b);
  if (pad4(w.stub) != pad4(g.stub)) return "[stub] differs";
  if (secs_text(w.secs) != secs_text(g.secs)) return "[sections] " + diff(secs_text(w.secs), secs_text(g.secs));
  return "";
}

Judge judge_for(const std::string& p) {
  Judge j;
  if (p == "C01") { j.header = j.sections = j.layout = j.resave = true; }
  else if (p == "C02") { j.comps = {"imp"}; j.problems = true; }
  else if (p == "C03") { j.comps = {"exp"}; j.problems = true; }
  else if (p == "C04") { j.comps = {"rel"}; }
  else if (p == "C05") { j.comps = {"res"}; j.problems = true; }
  else if (p == "C06") { j.comps = {"res"}; }
  else if (p == "C07") { j.comps = {"tls", "cfg", "bnd"}; }
  else if (p == "C08") { j.comps.insert(kComponents.begin(), kComponents.end()); j.header = j.sections = true; }
  else if (p == "C09") { j.sections = true; }
  else if (p == "C20") { j.comps = {"dbg", "exc", "net", "rich"}; }
  return j;
}

static const bool dbg_on = getenv("PESIM_DUMP") != nullptr;
static const std::vector<std::string> kNone;
Session::Session(const std::string& p) : prop(p), J(judge_for(p)) {
  for (auto& c : kComponents)
    if (J.comps.count(c) || p == "C15" || p == "C16" || p == "C17" || c == "tls" || c == "cfg" || c == "bnd") need.push_back(c);
}
// facts of the components this property looks at; the others are read when an operation asks for them
Facts Session::look(const pe_base& pe) { return read_facts(pe, &need); }
const std::string& Session::comp_now(Slot& s, const std::string& c) {
  if (!s.f.comp.count(c)) s.f.comp[c] = lib_component(*s.pe, c);
  return s.f.comp[c];
}

Slot& Session::fresh(int i) {
  while ((int)slots.size() <= i) slots.emplace_back();
  slots[i].reset(new Slot);
  return *slots[i];
}
Slot* Session::slot(const Op& op, const char* key) {
  size_t i = (size_t)op.get(key, 0);
  if (i >= slots.size() || !slots[i] || !slots[i]->pe) return nullptr;
  return slots[i].get();
}

static uint32_t pick_chunk(uint64_t n) { static const uint32_t v[] = {0, 0, 4096, 512, 64, 37, 3, 1000, 0, 16}; return v[n % 10]; }

// What a process memory dump of the mapped image holds: headers, then every section at its address.
std::string memory_dump(const std::string& file) {
  RefPe r(file);
  if (!r.ok) throw std::runtime_error("memory_dump: " + r.err);
  uint64_t hdr = r.sec_off + r.secs.size() * 40ull;
  for (auto& s : r.secs) if (s.rawsize) { hdr = std::max<uint64_t>(hdr, s.rawptr); break; }
  if (r.secs.empty()) return file;
  std::string d = file.substr(0, std::min<uint64_t>(hdr, r.secs[0].va));
  for (auto& s : r.secs) {
    uint64_t span = std::max<uint64_t>(alup<uint64_t>(s.vsize ? s.vsize : s.rawsize, r.salign), s.rawsize);
    if (d.size() < s.va + span) d.resize(s.va + span, '\0');
    std::string raw = s.rawsize ? file.substr(s.rawptr, s.rawsize) : "";
    d.replace(s.va, std::min<uint64_t>(raw.size(), span), raw.substr(0, span));
  }
  return d;
}

void Session::load(Slot& s, const std::string& bytes, uint64_t noise, bool mem) {
  IoCfg c;
  c.chunk = pick_chunk(noise ^ var.noise);
  SimBuf b(&bytes, nullptr, c);
  std::istream in(&b);
  Lib l;
  s.pe.reset(new pe_base(pe_factory::create_pe(in, mem)));
}

std::string Session::save(pe_base& pe, uint64_t noise, bool strip, bool chsize, bool bound) {
  std::string out;
  IoCfg c;
  c.obuf = pick_chunk((noise ^ var.noise) / 7);
  SimBuf b(nullptr, &out, c);
  std::ostream os(&b);
  {
    Lib l;
    rebuild_pe(pe, os, strip, chsize, bound);
  }
  os.flush();
  if (!os) throw std::runtime_error("stream failed without faults");
  return out;
}

static std::string state_digest(const Facts& f) {
  uint64_t h = 0;
  for (auto& kv : f.hdr) h = fnv(kv.first + kv.second, h);
  for (auto& s : f.secs) h = fnv(sec_text(s), h);
  for (auto& c : f.comp) h = fnv(c.second, h);
  return fmt("%016llx", (unsigned long long)h);
}

void Session::after(Slot& s, const std::string& what, const Facts& want, const std::set<std::string>& sh, const std::set<std::string>& sc) {
  Facts got = look(*s.pe);
  if (dbg_on) for (auto& c : J.comps) if (want.comp.at(c) != got.comp.at(c)) fprintf(stderr, "WANT\n%s\nGOT\n%s\n", want.comp.at(c).c_str(), got.comp.at(c).c_str());
  for (auto& c : J.comps)
    if (!sc.count(c) && !same_comp(want.comp.at(c), got.comp.at(c))) bad("content-" + c, "after " + what + ": [" + c + "] " + diff(want.comp.at(c), got.comp.at(c)));
  if (J.header) {
    KV a = want.hdr, b = got.hdr;
    for (auto& k : sh) { a.erase(k); b.erase(k); }
    if (a != b) bad("header", "after " + what + ": " + diff(a, b));
    if (pad4(want.stub) != pad4(got.stub)) bad("stub", "after " + what + ": DOS stub changed");
    // getters agree with the stored header
    KV g = lib_header(*s.pe);
    for (auto& kv : g)
      if (got.hdr.count(kv.first) && got.hdr.at(kv.first) != kv.second) bad("getter", "after " + what + ": getter " + kv.first + " gives " + kv.second + ", header holds " + got.hdr.at(kv.first));
  }
  if (J.header) {
    std::string al = header_alias_problems(*s.pe);
    if (!al.empty()) bad("getter", "after " + what + ": the same fact read in two ways differs: " + al);
  }
  if (J.sections && secs_text(want.secs) != secs_text(got.secs)) bad("sections", "after " + what + ": " + diff(secs_text(want.secs), secs_text(got.secs)));
  s.f = got;
  std::string d = state_digest(got);
  g_stats.states.insert(fnv(d));
  note(what + " -> " + d);
}

// the section table agrees with the header that describes it
std::string incoherence(const pe_base& pe) {
  Lib l;
  auto& v = pe.get_image_sections();
  if (pe.get_number_of_sections() != v.size()) return fmt("a header that states %u sections for %zu", (unsigned)pe.get_number_of_sections(), v.size());
  if (!v.empty() && pe.get_size_of_image() < v.back().get_virtual_address() + v.back().get_aligned_virtual_size(pe.get_section_alignment())) return "an image size that does not cover the last section";
  return "";
}

bool Session::attempt(Slot& s, const Op& op, const std::string& what, const std::function<void(pe_base&)>& fn, const std::set<std::string>& touched, bool may_refuse) {
  int64_t af = op.get("af", -1);
  std::string clean_result;
  bool have_clean = false, failed = false;
  if (af >= 0) {
    pe_base copy(*s.pe);
    std::string coherent = incoherence(copy);
    t_alloc.count = 0;
    bool refused = false;
    try { Lib l; fn(copy); } catch (const pe_exception&) { refused = true; }
    int64_t n = t_alloc.count;
    clean_result = lib_everything(copy);
    have_clean = !refused;
    if (n > 0) {
      t_alloc.count = 0;
      t_alloc.cfg.fail_at = af * n / 1000;
      t_alloc.cfg.fail_count = op.get("an", 1);
      uint64_t f0 = t_alloc.failed;
      std::string how;
      try { Lib l; fn(*s.pe); how = "completed"; }
      catch (const std::bad_alloc&) { failed = true; how = "bad_alloc"; }
      catch (const pe_exception& e) { failed = true; how = std::string("pe_exception ") + e.what(); }
      catch (const std::length_error&) { failed = true; how = "length_error"; }
      catch (...) { t_alloc.cfg.fail_at = -1; bad("alloc-escape", what + ": allocation failure escaped as a foreign exception"); }
      t_alloc.cfg.fail_at = -1;
      if (t_alloc.failed > f0) { fault_fired("alloc"); ++faulted; }
      note(fmt("%s alloc %lld/%lld: ", what.c_str(), (long long)(af * n / 1000), (long long)n) + how);
      if (!failed) {
        if (t_alloc.failed > f0) probe("alloc-failure-absorbed");
        return !refused;
      }
      op_faults.insert("alloc:" + op.name);
      if (prop == "C15" || prop == "C09" || prop == "C08") {
        std::string torn = incoherence(*s.pe);
        if (torn != coherent && !torn.empty()) bad("alloc-incoherent", what + " failed for lack of memory and leaves " + torn);
      }
      if (prop == "C15" || prop == "C08") {
        Facts g = look(*s.pe);
        for (auto& c : kComponents)
          if (!touched.count(c) && !same_comp(s.f.comp[c], g.comp[c])) bad("alloc-collateral", what + " failed for lack of memory and changed [" + c + "] " + diff(s.f.comp[c], g.comp[c]));
        {
          // the failed edit may have touched its own directory entry only
          KV a = s.f.hdr, b = g.hdr;
          for (auto& c : touched) { if (comp_dir(c) >= 0) { a.erase(fmt("dir%02d", comp_dir(c))); b.erase(fmt("dir%02d", comp_dir(c))); } }
          for (const char* k : {"size_of_image", "nsections"}) { a.erase(k); b.erase(k); }
          if (!touched.count("hdr") && a != b) bad("alloc-collateral", what + " failed for lack of memory and changed the header: " + diff(a, b));
          if (g.secs.size() < s.f.secs.size()) bad("alloc-collateral", what + " failed for lack of memory and lost a section");
        }
      }
    }
  }
  try {
    Lib l;
    fn(*s.pe);
  } catch (const pe_exception& e) {
    if (!may_refuse) bad("refused", what + " threw pe_exception: " + e.what());
    note(what + " refused: " + e.what());
    probe("refused:" + op.name);
    return false;
  }
  if (have_clean && failed) {
    std::string now = lib_everything(*s.pe);
    // dropped content of the host section beyond the written range may differ only by zeros: compare through facts
    if (now != clean_result && (prop == "C15")) bad("alloc-retry", what + " repeated after an allocation failure gives a different image: " + diff(clean_result, now));
    probe("alloc-failure-retried");
  }
  return true;
}

uint32_t Session::add_section_to(pe_base& pe, const std::string& name, const std::string& raw, uint32_t vsize, bool writable) {
  section s;
  s.set_name(name);
  s.readable(true);
  if (writable) s.writeable(true);
  s.set_raw_data(raw);
  s.set_virtual_size(vsize);
  return pe.add_section(s).get_virtual_address();
}

// ---------------------------------------------------------------- model edits
static std::string rnd_name(Rng& r, int max, bool allow_space = false) {
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@?.";
  int n = 1 + (int)r.below(r.chance(1, 8) ? max * 4 : max);
  std::string s;
  bool high = r.chance(1, 6);
  for (int i = 0; i < n; ++i) s += high && r.chance(1, 3) ? (char)(0x80 + r.below(0x80)) : al[r.below(sizeof al - 1)];
  if (allow_space && r.chance(1, 5)) s += " x";
  return s;
}
static std::u16string rnd_name16(Rng& r) {
  int n = r.chance(1, 12) ? 0 : 1 + (int)r.below(r.chance(1, 10) ? 40 : 6);
  std::u16string s;
  for (int i = 0; i < n; ++i) s += (char16_t)(r.chance(1, 4) ? 0x400 + r.below(0x100) : r.chance(1, 12) ? 0xff01 + r.below(50) : 'A' + r.below(26));
  return s;
}
static std::string rnd_blob(Rng& r, size_t max) {
  size_t n = r.chance(1, 6) ? r.below(4) : r.chance(1, 12) ? r.below(max * 8 + 1) : r.below(max + 1);
  std::string s(n, '\0');
  int mode = (int)r.below(4);
  for (auto& c : s) c = mode == 0 ? (char)r.next() : mode == 1 ? (char)('a' + r.below(26)) : mode == 2 ? (char)0 : (char)(r.chance(1, 2) ? 0 : r.next());
  return s;
}

static ImpFunc rnd_func(Rng& r) {
  ImpFunc f;
  f.named = r.chance(2, 3);
  if (f.named) { f.name = rnd_name(r, 14); f.hint = (uint32_t)r.below(r.chance(1, 3) ? 0x10000 : 300); }
  else f.ord = (uint32_t)(1 + r.below(r.chance(1, 3) ? 0xffff : 400));
  f.iat = 1 + r.below(r.chance(1, 2) ? 1 : 0x7ffffff0);
  return f;
}
static void edit_imports(std::vector<ImpLib>& v, Rng& r, int amount) {
  for (int k = 0; k < amount; ++k) {
    int w = (int)r.below(10);
    if (v.empty() || w < 4) {
      ImpLib l;
      l.name = rnd_name(r, 12) + ".dll";
      if (r.chance(1, 3)) l.ts = (uint32_t)r.next();
      int n = (int)r.below(r.chance(1, 8) ? 40 : 5);
      for (int i = 0; i < n; ++i) l.f.push_back(rnd_func(r));
      v.insert(v.begin() + r.below(v.size() + 1), l);
    } else {
      auto& l = v[r.below(v.size())];
      if (w < 6) l.f.insert(l.f.begin() + r.below(l.f.size() + 1), rnd_func(r));
      else if (w == 6 && !l.f.empty()) l.f.erase(l.f.begin() + r.below(l.f.size()));
      else if (w == 7) v.erase(v.begin() + r.below(v.size()));
      else if (w == 8 && v.size() > 1) std::swap(v[0], v[v.size() - 1]);
      else if (!l.f.empty()) l.f[r.below(l.f.size())] = rnd_func(r);
    }
  }
}
// `from`: objects read from an image, to be modified into what is wanted instead of starting from new ones
static imported_functions_list to_lib(const std::vector<ImpLib>& v, const imported_functions_list* from = nullptr) {
  imported_functions_list r;
  for (auto& l : v) {
    import_library x;
    import_library::imported_list old;
    if (from && r.size() < from->size()) { x = (*from)[r.size()]; old = x.get_imported_functions(); x.clear_imports(); }
    x.set_name(l.name);
    x.set_timestamp(l.ts);
    x.set_rva_to_iat(l.iat_rva);
    x.set_rva_to_original_iat(l.orig_rva);
    for (auto& f : l.f) {
      imported_function y;
      if (x.get_imported_functions().size() < old.size()) y = old[x.get_imported_functions().size()];
      y.set_iat_va(f.iat);
      if (f.named) { y.set_name(f.name); y.set_hint((uint16_t)f.hint); }
      else { y.set_name(""); y.set_ordinal((uint16_t)f.ord); }
      x.add_import(y);
    }
    r.push_back(x);
  }
  return r;
}

static void edit_exports(ExpInfo& e, Rng& r, int amount, const std::vector<LibSec>& secs) {
  // a function lies outside any section that may host a directory (an address inside the export directory means a forwarder)
  auto rva = [&]() -> uint32_t {
    bool usable = secs.size() > 1 && secs[0].name != ".arena" && secs[0].name.compare(0, 2, ".s") != 0;
    if (!usable) return 0x10 + (uint32_t)r.below(0x200);
    return secs[0].va + 1 + (uint32_t)r.below(secs[0].vsize ? secs[0].vsize : 16);
  };
  auto has_ord = [&](uint32_t o) { for (auto& f : e.f) if (f.ord == o) return true; return false; };
  auto has_name = [&](const std::string& n) { for (auto& f : e.f) if (f.named && f.name == n) return true; return false; };
  if (!e.present) { e = ExpInfo(); e.present = true; e.name = rnd_name(r, 10) + ".dll"; e.base = (uint32_t)r.below(3); }
  for (int k = 0; k < amount; ++k) {
    int w = (int)r.below(10);
    if (e.f.empty() || w < 5) {
      ExpFunc f;
      uint32_t lo = e.f.empty() ? (uint32_t)r.below(r.chance(1, 4) ? 60000 : 8) : e.f[0].ord;
      f.ord = lo + (uint32_t)r.below(r.chance(1, 5) ? 200 : 12);
      if (r.chance(1, 6) && lo > 2) f.ord = lo - 1 - (uint32_t)r.below(2);
      if (f.ord > 0xffff || has_ord(f.ord)) continue;
      if (r.chance(2, 3)) {
        f.name = rnd_name(r, 12);
        if (has_name(f.name)) continue;
        f.named = true;
      }
      if (r.chance(1, 4)) { f.fwd = true; f.fwd_name = rnd_name(r, 6) + "." + rnd_name(r, 8); f.rva = 1; }
      else f.rva = rva();
      e.f.insert(e.f.begin() + r.below(e.f.size() + 1), f);
    } else if (w < 7) e.f.erase(e.f.begin() + r.below(e.f.size()));
    else if (w == 7) { auto& f = e.f[r.below(e.f.size())]; if (!f.fwd) f.rva = rva(); }
    else if (w == 8) { e.name = rnd_name(r, 14); e.ts = (uint32_t)r.next(); e.chars = (uint32_t)r.next(); e.major = (uint32_t)r.below(65536); e.minor = (uint32_t)r.below(65536); }
    else {
      auto& f = e.f[r.below(e.f.size())];
      std::string n = rnd_name(r, 12);
      if (f.named && r.chance(1, 2)) { f.named = false; f.name.clear(); }
      else if (!has_name(n)) { f.named = true; f.name = n; }
    }
  }
}
static void finish_exports(ExpInfo& e) {
  std::sort(e.f.begin(), e.f.end(), [](const ExpFunc& a, const ExpFunc& b) { return a.ord < b.ord; });
  e.nnames = 0;
  for (auto& f : e.f) e.nnames += f.named;
  if (!e.f.empty()) { e.base = e.f.front().ord; e.nfuncs = e.f.back().ord - e.base + 1; }
  else e.nfuncs = 0;
}

static bool reloc_spot_ok(const std::vector<LibSec>& secs, uint32_t rva, uint32_t w) {
  for (auto& s : secs)
    if (rva >= s.va && rva + w <= s.va + s.data.size()) return true;
  return false;
}
// `avoid`: addresses of directories; a fixup must not land on a table another part of the image is read from
static void edit_relocs(std::vector<RelTable>& v, Rng& r, int amount, const std::vector<LibSec>& secs, bool plus, const std::vector<uint32_t>& avoid) {
  uint32_t w = plus ? 8 : 4;
  std::vector<const LibSec*> cand;
  for (auto& s : secs) {
    bool hosts = s.name == ".arena" || s.name.compare(0, 2, ".s") == 0;
    for (auto a : avoid) if (a >= s.va && a < s.va + std::max<size_t>(s.vsize, s.data.size())) hosts = true;
    if (s.data.size() > 64 && !hosts) cand.push_back(&s);
  }
  for (int k = 0; k < amount; ++k) {
    int a = (int)r.below(10);
    if (v.empty() || a < 4) {
      if (cand.empty()) return;
      auto* s = cand[r.below(cand.size())];
      uint32_t page = s->va + 0x1000 * (uint32_t)r.below((s->data.size() + 0xfff) / 0x1000);
      bool dup = false;
      for (auto& t : v) if (t.rva == page) dup = true;
      if (dup) continue;
      RelTable t;
      t.rva = page;
      int n = (int)r.below(r.chance(1, 6) ? 120 : 9);
      uint32_t off = (uint32_t)r.below(16);
      for (int i = 0; i < n && off < 0xff0; ++i) {
        if (reloc_spot_ok(secs, page + off, w)) t.items.push_back((uint16_t)(off | (plus ? 10 : 3) << 12));
        off += w + (uint32_t)r.below(r.chance(1, 3) ? 64 : 3);
      }
      v.push_back(t);
    } else if (a < 6) v.erase(v.begin() + r.below(v.size()));
    else if (a < 8) { auto& t = v[r.below(v.size())]; if (!t.items.empty()) t.items.erase(t.items.begin() + r.below(t.items.size())); }
    else if (a == 8 && v.size() > 1) std::swap(v[0], v[v.size() - 1]);
    else {
      auto& t = v[r.below(v.size())];
      uint32_t last = 0;
      for (auto i : t.items) last = std::max<uint32_t>(last, i & 0xfff);
      uint32_t off = t.items.empty() ? 0 : last + w;
      if (off < 0xff0 && reloc_spot_ok(secs, t.rva + off, w)) t.items.push_back((uint16_t)(off | (plus ? 10 : 3) << 12));
    }
  }
}

static void edit_bound(std::vector<BndMod>& v, Rng& r, int amount) {
  for (int k = 0; k < amount; ++k) {
    int a = (int)r.below(8);
    if (v.empty() || a < 4) {
      BndMod m;
      m.name = rnd_name(r, 14);
      m.ts = (uint32_t)r.next();
      int n = (int)r.below(r.chance(1, 3) ? 5 : 2);
      for (int i = 0; i < n; ++i) m.refs.push_back({rnd_name(r, 10), (uint32_t)r.next()});
      v.insert(v.begin() + r.below(v.size() + 1), m);
    } else if (a < 6) v.erase(v.begin() + r.below(v.size()));
    else {
      auto& m = v[r.below(v.size())];
      if (m.refs.empty() || a == 6) m.refs.push_back({rnd_name(r, 10), (uint32_t)r.next()});
      else m.refs.pop_back();
    }
  }
}

static void edit_resources(ResMap& m, Rng& r, int amount) {
  for (int k = 0; k < amount; ++k) {
    int a = (int)r.below(8);
    if (m.empty() || a < 5) {
      ResKey key;
      if (!m.empty() && r.chance(1, 2)) { auto i = m.begin(); std::advance(i, r.below(m.size())); key = i->first; }
      else for (int d = 0; d < 2; ++d) { key.named[d] = false; key.name[d].clear(); key.id[d] = 1 + (uint32_t)r.below(30); }
      int d = (int)r.below(3);
      for (int q = d; q < 2; ++q) {
        key.named[q] = r.chance(1, 3);
        key.name[q].clear();
        key.id[q] = 0;
        if (key.named[q]) key.name[q] = rnd_name16(r);
        else key.id[q] = (uint32_t)r.below(r.chance(1, 6) ? 0x10000 : 40);
      }
      key.named[2] = false; key.name[2].clear();
      key.id[2] = r.chance(1, 2) ? 1033 : (uint32_t)r.below(2048);
      ResLeaf l;
      l.codepage = r.chance(1, 2) ? 0 : (uint32_t)r.next();
      l.data = rnd_blob(r, 120);
      m[key] = l;
    } else if (a < 7 && m.size() > 1) { auto i = m.begin(); std::advance(i, r.below(m.size())); m.erase(i); }
    else { auto i = m.begin(); std::advance(i, r.below(m.size())); i->second.data = rnd_blob(r, 200); }
  }
}
static std::wstring w16(const std::u16string& s) { std::wstring r; for (auto c : s) r += (wchar_t)c; return r; }
static resource_directory_entry* find_entry(resource_directory& d, bool named, const std::wstring& n, uint32_t id) {
  for (auto& e : d.get_entry_list()) if (e.is_named() == named && (named ? e.get_name() == n : e.get_id() == id)) return &e;
  return nullptr;
}
static void any_header(resource_directory& d, uint64_t k) {
  Rng r(k);
  d.set_characteristics((uint32_t)r.next()); d.set_timestamp((uint32_t)r.next()); d.set_major_version((uint16_t)r.next());
}
static resource_directory tree_of(const ResMap& m) {
  resource_directory root;
  any_header(root, m.size());
  for (auto& kv : m) {
    resource_directory* d = &root;
    for (int i = 0; i < 3; ++i) {
      std::wstring n = w16(kv.first.name[i]);
      resource_directory_entry* e = find_entry(*d, kv.first.named[i], n, kv.first.id[i]);
      if (!e) {
        resource_directory_entry ne;
        if (kv.first.named[i]) ne.set_name(n); else ne.set_id(kv.first.id[i]);
        if (i == 2) ne.add_data_entry(resource_data_entry(kv.second.data, kv.second.codepage));
        else { resource_directory nd; any_header(nd, kv.first.id[i] * 7 + kv.first.name[i].size() + i); ne.add_resource_directory(nd); }
        d->add_resource_directory_entry(ne);
        e = find_entry(*d, kv.first.named[i], n, kv.first.id[i]);
      }
      if (i < 2) d = &e->get_resource_directory();
    }
  }
  return root;
}

// ---------------------------------------------------------------- operations
void Session::run(const Plan& p) {
  t_alloc.cfg.poison = var.poison;
  for (auto& op : p.ops) {
    if (step(op)) { ++executed; g_stats.ops[op.name + (op.has("c") && op.name == "edit" ? ":" + kComponents[op.get("c") % 11] : "")]++; }
  }
}

bool Session::step(const Op& op) {
  if (op.name == "new") return op_new(op);
  if (op.name == "edit") return op_edit(op);
  if (op.name == "remove") return op_remove(op);
  if (op.name == "arena") return op_arena(op);
  if (op.name == "section") return op_section(op);
  if (op.name == "header") return op_header(op);
  if (op.name == "stub") return op_stub(op);
  if (op.name == "save") return op_save(op);
  if (op.name == "restart" || op.name == "crash" || op.name == "dump") return op_restart(op);
  if (op.name == "copy") return op_copy(op);
  if (op.name == "rebase") return op_rebase(op);
  if (op.name == "read") return op_read(op);
  return false;
}

bool Session::op_new(const Op& op) {
  int kind = (int)op.get("kind", 0);
  uint64_t seed = (uint64_t)op.get("seed", 0);
  Slot& s = fresh((int)op.get("s", 0));
  if (kind == 50 || kind == 51) {
    uint32_t al = op.get("align", 0x1000);
    Lib l;
    uint16_t sub = (uint16_t)op.get("sub", pe_win::image_subsystem_windows_gui);
    bool dll = op.get("dll", 0) != 0;
    if (kind == 50) s.pe.reset(sub == pe_win::image_subsystem_windows_gui ? new pe_base(pe_properties_32(), al, dll) : new pe_base(pe_properties_32(), al, dll, sub));
    else s.pe.reset(sub == pe_win::image_subsystem_windows_gui ? new pe_base(pe_properties_64(), al, dll) : new pe_base(pe_properties_64(), al, dll, sub));
    // an image from scratch is an executable (or a DLL) without sections and directories
    uint16_t ch = s.pe->get_characteristics();
    if (!(ch & 2) || !(ch & 0x2000) != !dll || s.pe->get_subsystem() != sub || s.pe->get_section_alignment() != al || s.pe->get_number_of_sections() || !s.pe->get_image_sections().empty()
        || s.pe->get_magic() != (kind == 50 ? 0x10b : 0x20b) || s.pe->get_pe_type() != (kind == 50 ? pe_type_32 : pe_type_64) || s.pe->get_pe_signature() != 0x4550 || s.pe->get_dos_header().e_magic != 0x5a4d)
      bad("created", fmt("created image: characteristics %x, subsystem %u, section alignment %x, magic %x", ch, s.pe->get_subsystem(), s.pe->get_section_alignment(), s.pe->get_magic()));
    for (uint32_t d = 0; d < 16; ++d) if (s.pe->directory_exists(d)) bad("created", fmt("created image has directory %u", d));
  } else {
    std::string b = base_image(kind, seed);
    try { load(s, b, seed); }
    catch (const pe_exception& e) { bad("load", std::string("base image refused: ") + e.what()); }
    s.disk = b;
    s.has_disk = true;
    RefPe ref(b);
    if (!ref.ok) throw std::runtime_error("reference decoder rejects base image: " + ref.err);
    Facts g = look(*s.pe);
    // what is reported right after loading is what an independent decoder reads
    for (auto& c : J.comps)
      if (!same_comp(ref.component(c), g.comp[c])) bad("view-" + c, "freshly loaded image: [" + c + "] stored " + diff(ref.component(c), g.comp[c]));
    if (J.header && ref.hdr != g.hdr) bad("header", "freshly loaded image: " + diff(ref.hdr, g.hdr));
    s.disk_f = g;
  }
  s.f = look(*s.pe);
  uint32_t e = 0;
  for (auto& x : s.f.secs) { e = std::max<uint32_t>(x.vsize, (uint32_t)x.data.size()); s.used_end[x.va] = e; }
  note(fmt("new kind=%d ", kind) + state_digest(s.f));
  return true;
}

bool Session::op_arena(const Op& op) {
  Slot* s = slot(op);
  if (!s || s->arena_va) return false;
  Rng r((uint64_t)op.get("seed", 1));
  std::string raw(0xA000, '\0');
  for (auto& c : raw) c = (char)(0x80 + r.below(0x7f));
  Facts want = s->f;
  uint32_t va = 0;
  if (!attempt(*s, op, "arena", [&](pe_base& pe) { va = add_section_to(pe, ".arena", raw, 0, true); }, {"hdr"}, true)) return true;
  Facts got = read_facts(*s->pe, &kNone);
  if (got.secs.size() != want.secs.size() + 1) bad("sections", "add_section did not add exactly one section");
  if (!want.secs.empty()) want.secs.back().rawsize = got.secs[want.secs.size() - 1].rawsize;
  want.secs.push_back(got.secs.back());
  after(*s, "arena", want, {"nsections", "size_of_image"}, {});
  s->arena_va = va;
  s->used_end[va] = 0xA000;
  return true;
}

bool Session::op_edit(const Op& op) {
  Slot* sp = slot(op);
  if (!sp) return false;
  Slot& s = *sp;
  std::string c = kComponents[op.get("c") % 7];
  Rng r((uint64_t)op.get("seed", 1));
  int amount = (int)op.get("n", 3);
  bool plus = s.pe->get_pe_type() == pe_type_64;
  if (s.pe->get_number_of_rvas_and_sizes() <= (uint32_t)comp_dir(c)) return false;
  if (comp_now(s, c).compare(0, 5, "error") == 0 && c != "tls" && c != "cfg") return false;
  // ---- placement
  int place = (int)op.get("place", 0);
  bool strip = op.get("strip", 1) != 0;
  uint32_t off = (uint32_t)op.get("off", 0);
  int idx = -1;
  bool reuse = false;
  auto find_va = [&](uint32_t va) { for (size_t i = 0; i < s.f.secs.size(); ++i) if (s.f.secs[i].va == va) return (int)i; return -1; };
  if (place == 1 && s.place.count(c) && s.place[c].ok) {
    idx = find_va(s.place[c].va);
    if (idx >= 0) {
      off = s.place[c].off;
      reuse = true;
      bool in_arena = s.place[c].va == s.arena_va && off < 0xA000;
      if (in_arena) place = 2;   // size limits of the arena slots apply
      else for (auto& o : s.place) if (o.first != c && o.second.ok && o.second.va == s.place[c].va && o.second.off >= off) reuse = false;   // something else follows
      if (!reuse) { idx = -1; off = 0; }
    }
  } else if (place == 2 && s.arena_va) {
    idx = find_va(s.arena_va);
    int slotno = 0;
    for (size_t i = 0; i < 7; ++i) if (kComponents[i] == c) slotno = (int)i;
    off = (uint32_t)(slotno * 0x1400 + (off & 0x3f));
  } else if (place == 3 && c != "rel" && !s.f.secs.empty() && s.f.secs.back().rawsize) {
    idx = (int)s.f.secs.size() - 1;
    auto& last = s.f.secs.back();
    off = alup<uint32_t>(std::max<uint32_t>(std::max<uint32_t>((uint32_t)last.data.size(), last.vsize), s.used_end[last.va]), 16) + (off & 0x1f);
    if (off > 0x40000) idx = -1, off = 0;
  } else if (place == 4 && c != "rel" && s.f.secs.size() > 1) {   // the end of a section in the middle: nothing fits
    idx = (int)((op.get("seed", 1) >> 8) % (s.f.secs.size() - 1));
    uint32_t raw = alup<uint32_t>(std::max<uint32_t>(s.f.secs[idx].rawsize, (uint32_t)s.f.secs[idx].data.size()), s.pe->get_file_alignment());
    off = raw - std::min<uint32_t>(raw, off & 7) + (off & 0x10 ? off >> 6 & 0x3ff : 0);
  }
  const bool no_room = place == 4 && idx >= 0;
  Facts want = s.f;
  std::set<std::string> sh = {fmt("dir%02d", comp_dir(c)), "size_of_image", "nsections"};
  bool added = false;
  if (idx < 0) {
    if (s.f.secs.size() >= 0x50) return false;
    off &= 0xfff;
    std::string name = fmt(".s%u", s.next_sec++);
    std::string raw((size_t)(1 + (op.get("raw", 0) & 0x7ff)), (char)0x5a);
    Op o2 = op; o2.a.erase("af");
    try { Lib l; add_section_to(*s.pe, name, raw, 0, true); }
    catch (const pe_exception& e) { bad("refused", std::string("add_section: ") + e.what()); }
    Facts g = read_facts(*s.pe, &kNone);
    idx = (int)g.secs.size() - 1;
    if (!want.secs.empty()) want.secs.back().rawsize = g.secs[want.secs.size() - 1].rawsize;
    want.secs.push_back(g.secs.back());
    s.f.secs = g.secs; s.f.hdr["nsections"] = g.hdr["nsections"]; s.f.hdr["size_of_image"] = g.hdr["size_of_image"];
    added = true;
  }
  uint32_t host_va = want.secs[idx].va;
  size_t before_len = want.secs[idx].data.size();
  std::string before_data = want.secs[idx].data;
  bool is_last = idx == (int)want.secs.size() - 1;
  bool may_refuse = !is_last;
  // ---- new content and the call
  std::function<void(pe_base&)> fn;
  std::string expect;
  uint32_t extent_end = 0;   // 0: from the directory entry
  std::function<std::string(const std::string&)> fix;   // adjust expectation from what was read (addresses chosen by the library)
  std::shared_ptr<std::string> res_hdrs;
  bool with_unattached = op.get("unattached", 0) != 0;
  auto target = [idx, with_unattached](pe_base& pe, section& tmp) -> section& {
    if (with_unattached) { tmp = pe.get_image_sections()[idx]; return tmp; }
    return pe.get_image_sections()[idx];
  };
  size_t limit = place == 2 ? 0x1000 : 0x30000;
  const bool rmw = op.get("rmw", 0) != 0;   // modify the objects read from the image instead of building new ones
  std::vector<ImpLib> nimp; ExpInfo nexp; std::vector<RelTable> nrel; TlsFacts ntls; CfgFacts ncfg; std::vector<BndMod> nbnd; ResMap nres;
  if (c == "imp") {
    nimp = lib_imports(*s.pe);
    int mode = (int)op.get("mode", 0);
    size_t old_n = nimp.size();
    std::vector<ImpLib> old = nimp;
    bool dirty_host = false;   // old tables live in the host area that is about to be overwritten
    if (s.imp_hosts.count(host_va)) dirty_host = true;
    if (dirty_host && mode >= 2) mode = 0;
    bool ziat = op.get("ziat", 0) != 0 && s.pe->get_number_of_rvas_and_sizes() > 12;
    s.imp_hosts.insert(host_va);
    import_rebuilder_settings st(true, ziat);
    st.set_offset_from_section_start(off);
    st.enable_auto_strip_last_section(strip);
    if (ziat) sh.insert("dir12");
    std::vector<ImpLib> arg;
    if (mode <= 1) {
      edit_imports(nimp, r, amount);
      bool orig = mode == 0;
      st.save_iat_and_original_iat_rvas(false, false);
      st.build_original_iat(orig);
      for (auto& l : nimp) { l.has_orig = orig; for (auto& f : l.f) { if (!plus) f.iat &= 0xffffffffu; if (!f.iat) f.iat = 1; } }
      arg = nimp;
    } else if (mode == 2 || mode == 4) {
      // keep the existing tables, append new libraries
      std::vector<ImpLib> add;
      edit_imports(add, r, amount);
      for (auto& l : add) { l.has_orig = true; l.iat_rva = l.orig_rva = 0; for (auto& f : l.f) if (!f.iat) f.iat = 1; }
      st.save_iat_and_original_iat_rvas(true, false);
      bool fill = mode == 4;
      st.fill_missing_original_iats(fill);
      for (auto& l : nimp) if (!l.has_orig && fill) l.has_orig = true;
      nimp.insert(nimp.end(), add.begin(), add.end());
      arg = nimp;
      for (size_t i = 0; i < old_n; ++i) arg[i].orig_rva = old[i].orig_rva;
    } else {
      // keep the table addresses, rewrite their contents with at most as many functions
      st.save_iat_and_original_iat_rvas(true, true);
      for (auto& l : nimp) {
        if (!l.has_orig) { // new tables are not written for these: leave them as they are
          continue;
        }
        for (auto& f : l.f) if (r.chance(1, 2)) f = rnd_func(r);
        if (l.f.size() > 1 && r.chance(1, 3)) l.f.pop_back();
      }
      bool any_no_orig = false;
      for (auto& l : nimp) if (!l.has_orig) any_no_orig = true;
      if (any_no_orig || nimp.empty()) return added;
      may_refuse = true;
      for (auto& l : nimp) for (auto& f : l.f) { if (!plus) f.iat &= 0xffffffffu; if (!f.iat) f.iat = 1; }
      arg = nimp;
    }
    if (text(nimp).size() > limit) return added;
    for (auto& l : arg) if (!plus) for (auto& f : l.f) f.iat &= 0xffffffffu;
    fn = [=](pe_base& pe) {
      imported_functions_list from;
      if (rmw) try { from = get_imported_functions(pe); } catch (const pe_exception&) {}
      imported_functions_list l = to_lib(arg, rmw ? &from : nullptr); section tmp; rebuild_imports(pe, l, target(pe, tmp), st); };
    expect = text(nimp);
    if (mode == 3) {
      // table contents change where the old tables are; not compared byte for byte
      fix = nullptr;
      sh.insert("__iat");
    }
    place = mode == 3 ? 30 : place;
  } else if (c == "exp") {
    nexp = lib_exports(*s.pe);
    std::vector<LibSec> secs = want.secs;
    // a function that was put right behind the directory must not end up inside a longer one
    uint32_t edge = s.pe->get_directory_rva(0) ? s.pe->get_directory_rva(0) + s.pe->get_directory_size(0) : 0;
    for (auto& f : nexp.f) if (!f.fwd && f.rva == edge) f.rva = 0x10;
    edit_exports(nexp, r, amount, secs);
    if (text(nexp).size() > limit * 4 || (nexp.f.size() && place == 2 && nexp.f.size() > 60)) return added;
    ExpInfo arg = nexp;
    finish_exports(nexp);
    if (place == 2 && nexp.nfuncs > 500) return added;
    ExpInfo head = nexp;
    head.f.clear();
    auto call = [=](pe_base& pe, const ExpInfo& arg) {
      exported_functions_list l, from;
      export_info info;
      if (rmw) try { from = get_exported_functions(pe, info); } catch (const pe_exception&) { info = export_info(); from.clear(); }
      info.set_characteristics(head.chars); info.set_timestamp(head.ts); info.set_major_version((uint16_t)head.major); info.set_minor_version((uint16_t)head.minor);
      info.set_name(head.name); info.set_ordinal_base(head.base);
      for (auto& f : arg.f) {
        exported_function x;
        if (l.size() < from.size() && (f.named || !from[l.size()].has_name()) && (f.fwd || !from[l.size()].is_forwarded())) x = from[l.size()];
        x.set_ordinal((uint16_t)f.ord);
        x.set_rva(f.rva);
        if (f.named) x.set_name(f.name);
        if (f.fwd) x.set_forwarded_name(f.fwd_name);
        l.push_back(x);
      }
      section tmp;
      rebuild_exports(pe, info, l, target(pe, tmp), off, true, strip);
    };
    bool near = false;
    for (auto& f : arg.f) near = near || (!f.fwd && f.rva >= host_va && f.rva < host_va + off + 0x20000);
    if (near) {   // an address inside the directory would be a forwarder
      uint32_t from = 0, end = 0;
      try { pe_base t(*s.pe); call(t, arg); from = t.get_directory_rva(0); end = from + t.get_directory_size(0); } catch (const pe_exception&) {}
      for (auto* l : {&arg, &nexp}) for (auto& f : l->f) if (!f.fwd && f.rva >= from && f.rva < end) f.rva = 0x10;
    }
    if (r.chance(1, 3)) {
      // the first address behind the directory is an ordinary function, not a forwarder
      uint32_t end = 0;
      try { pe_base t(*s.pe); call(t, arg); end = t.get_directory_rva(0) + t.get_directory_size(0); } catch (const pe_exception&) {}
      for (size_t i = 0; end && i < arg.f.size(); ++i)
        if (!arg.f[i].fwd) {
          arg.f[i].rva = end;
          for (auto& f : nexp.f) if (f.ord == arg.f[i].ord) f.rva = end;
          probe("export-behind-directory");
          break;
        }
    }
    fn = [=](pe_base& pe) { call(pe, arg); };
    expect = text(nexp);
  } else if (c == "rel") {
    nrel = lib_relocs(*s.pe, false);
    std::vector<uint32_t> avoid = {host_va};
    for (int d = 0; d < 16; ++d) { auto i = s.f.hdr.find(fmt("dir%02d", d)); if (i != s.f.hdr.end()) avoid.push_back((uint32_t)strtoul(i->second.c_str(), 0, 16)); }
    edit_relocs(nrel, r, amount, want.secs, plus, avoid);
    if (op.get("types", 0))   // other entry kinds round-trip too (never rebased)
      for (auto& t : nrel) for (auto& i : t.items) if (r.chance(1, 4)) i = (uint16_t)((i & 0xfff) | (1 + r.below(10)) << 12);
    if (op.get("clear", 0)) nrel.clear();
    if (text(nrel).size() > limit) return added;
    std::vector<RelTable> arg = nrel;
    bool abs = op.get("abs", 0) != 0, r_abs = amount & 1;
    fn = [=](pe_base& pe) {
      relocation_table_list l, from;
      if (rmw) try { from = get_relocations(pe, r_abs); } catch (const pe_exception&) {}
      for (auto& t : arg) {
        relocation_table x(t.rva);
        if (l.size() < from.size()) { x = from[l.size()]; x.set_rva(t.rva); x.get_relocations().clear(); }
        for (auto i : t.items) { x.add_relocation(relocation_entry((uint16_t)(i & 0xfff), (uint16_t)(i >> 12))); if (abs) x.add_relocation(relocation_entry(0, 0)); }
        l.push_back(x);
      }
      section tmp;
      rebuild_relocations(pe, l, target(pe, tmp), off, true, strip);
    };
    expect = text(nrel);
    want.hdr["characteristics"] = fmt("%llu", strtoull(want.hdr["characteristics"].c_str(), 0, 10) & ~1ull);
    want.hdr["dllchar"] = fmt("%llu", strtoull(want.hdr["dllchar"].c_str(), 0, 10) | 0x40ull);
    if (with_unattached) { want.hdr = s.f.hdr; }
  } else if (c == "tls") {
    try { ntls = lib_tls(*s.pe); } catch (const pe_exception&) { ntls = TlsFacts(); }
    uint32_t w = plus ? 8 : 4;
    uint32_t at = alup(off, w) + (plus ? 40 : 24);
    ntls.present = true;
    ntls.index = want.secs[0].va + (uint32_t)r.below(0x100) * 4 + 4;
    ntls.chars = (uint32_t)r.next();
    ntls.raw = rnd_blob(r, 100);
    if (ntls.raw.size() > 0x600) ntls.raw.resize(0x600);
    uint32_t pos = host_va + alup<uint32_t>(at, 16);
    if (!ntls.raw.empty()) {
      ntls.start = pos; ntls.end = pos + (uint32_t)ntls.raw.size();
      ntls.zero = (uint32_t)r.below(1000);
      pos = alup<uint32_t>(ntls.end, 16) + (uint32_t)r.below(3) * 8;
    } else {   // no template: an empty range, or none at all
      ntls.start = ntls.end = r.chance(1, 2) ? 0 : host_va + alup(off, w);
      ntls.zero = r.chance(1, 3) ? 0 : (uint32_t)r.below(1000);
    }
    ntls.cb.clear();
    int n = (int)r.below(5);
    for (int i = 0; i < n; ++i) ntls.cb.push_back(want.secs[0].va + 1 + (uint32_t)r.below(0x1000));
    ntls.cbs = r.chance(1, 5) ? 0 : pos;
    if (!ntls.cbs) ntls.cb.clear();
    uint32_t cb_end = ntls.cbs ? pos + (uint32_t)(ntls.cb.size() + 1) * w : 0;
    // optionally let the callback table end exactly at the end of the section
    if (ntls.cbs && is_last && r.chance(1, 3)) {
      uint32_t sa = (uint32_t)s.pe->get_section_alignment();
      uint32_t endp = alup<uint32_t>(cb_end, sa);
      if (endp - cb_end < 0x2000) { ntls.cbs += endp - cb_end; cb_end = endp; }
    }
    // the null terminator may be left to the zero-filled tail
    extent_end = std::max<uint32_t>({host_va + at, ntls.end, cb_end}) - host_va;
    // the area between must hold a terminator for callbacks placed beyond
    TlsFacts arg = ntls;
    bool ex = op.get("expand", 0) != 0;
    // addresses have to lie inside the section as it is before the call
    may_refuse = !is_last || extent_end > alup<uint32_t>(std::max<uint32_t>(1, want.secs[idx].vsize), s.pe->get_section_alignment());
    bool loose = ex || !is_last;   // raw data may end in virtual space: the documented behaviour is to write what fits
    bool again = r.chance(1, 4) && !(loose && op.get("af", -1) >= 0);   // a second rebuild that leaves the callback table and the raw data where and as they are
    bool shorter = !loose && !arg.raw.empty() && r.chance(1, 6);   // the caller supplies less data than the range holds
    std::string given = arg.raw;
    if (shorter) { given.resize(r.below(arg.raw.size())); arg.raw = given; }
    fn = [=](pe_base& pe) {
      tls_info t;
      if (rmw) try { t = get_tls_info(pe); } catch (const pe_exception&) {}
      t.clear_tls_callbacks();
      t.set_raw_data_start_rva(arg.start); t.set_raw_data_end_rva(arg.end); t.set_index_rva(arg.index); t.set_callbacks_rva(arg.cbs);
      t.set_size_of_zero_fill(arg.zero); t.set_characteristics(arg.chars); t.set_raw_data(arg.raw);
      for (auto x : arg.cb) t.add_tls_callback(x);
      section tmp;
      if (again) {
        t.set_characteristics(~arg.chars); t.set_size_of_zero_fill(arg.zero + 1);
        rebuild_tls(pe, t, target(pe, tmp), off, true, true, ex ? tls_data_expand_virtual : tls_data_expand_raw, true, strip);
        t.set_characteristics(arg.chars); t.set_size_of_zero_fill(arg.zero);
        t.clear_tls_callbacks();
        if (arg.index & 4) t.add_tls_callback(arg.index);
        t.set_raw_data(std::string(arg.raw.size() / 2, 'N'));
        rebuild_tls(pe, t, target(pe, tmp), off, false, false, ex ? tls_data_expand_virtual : tls_data_expand_raw, true, strip);
      } else
      rebuild_tls(pe, t, target(pe, tmp), off, true, true, ex ? tls_data_expand_virtual : tls_data_expand_raw, true, strip);
    };
    if (loose) ntls.raw.clear();   // data may be partly virtual: content is compared below
    expect = text(ntls);
    if (shorter) {
      size_t full = ntls.raw.size();
      fix = [this, given, full, ntls, &s](const std::string&) {
        TlsFacts t = ntls, g = lib_tls(*s.pe);
        if (g.raw.size() != full || g.raw.compare(0, given.size(), given) != 0) bad("content-tls", "TLS raw data does not start with the bytes supplied");
        t.raw = g.raw;
        return text(t);
      };
    }
    if (loose) {
      std::string full = arg.raw;
      fix = [this, full, ntls, &s](const std::string&) {
        TlsFacts t = ntls;
        TlsFacts g = lib_tls(*s.pe);
        t.raw = g.raw;
        if (g.raw.size() != full.size()) bad("content-tls", fmt("TLS raw data has %zu bytes, expected %zu", g.raw.size(), full.size()));
        // every byte is the given one, or zero because only virtual space was provided for it
        size_t k = 0;
        while (k < full.size() && g.raw[k] == full[k]) ++k;
        for (; k < full.size(); ++k) if (g.raw[k]) bad("content-tls", fmt("TLS raw data byte %zu is neither the given one nor zero", k));
        return text(t);
      };
    }
  } else if (c == "cfg") {
    try { ncfg = lib_config(*s.pe); } catch (const pe_exception&) { ncfg = CfgFacts(); }
    ncfg.present = true;
    uint64_t m = plus ? ~0ull : 0xffffffffull;
    if (r.chance(1, 2)) { ncfg.ts = (uint32_t)r.next(); ncfg.major = (uint32_t)r.below(65536); ncfg.minor = (uint32_t)r.below(65536); ncfg.gfc = (uint32_t)r.next(); }
    if (r.chance(1, 2)) { ncfg.gfs = (uint32_t)r.next(); ncfg.cst = (uint32_t)r.next(); ncfg.phf = (uint32_t)r.next(); ncfg.csd = (uint32_t)r.below(65536); }
    if (r.chance(1, 2)) { ncfg.dcf = r.next() & m; ncfg.dct = r.next() & m; ncfg.mas = r.next() & m; ncfg.vmt = r.next() & m; }
    if (r.chance(1, 2)) { ncfg.pam = r.next() & m; ncfg.edit = r.next() & m; ncfg.cookie = r.next() & m; }
    auto edit_list = [&](std::vector<uint32_t>& v) {
      int n = (int)r.below(4);
      for (int i = 0; i < n; ++i) v.push_back(want.secs[0].va + 1 + (uint32_t)r.below(0x4000));
      n = (int)r.below(3);
      for (int i = 0; i < n && !v.empty(); ++i) v.erase(v.begin() + r.below(v.size()));
      if (v.size() > 60) v.resize(60);
      if (r.chance(1, 6)) v.clear();
    };
    edit_list(ncfg.seh);
    edit_list(ncfg.lock);
    CfgFacts arg = ncfg;
    bool again = r.chance(1, 4);   // a second rebuild that leaves both tables where and as they are
    std::sort(ncfg.seh.begin(), ncfg.seh.end());
    ncfg.sehc = ncfg.seh.size();
    extent_end = alup<uint32_t>(off, plus ? 8 : 4) + (plus ? 112 : 72) + (uint32_t)ncfg.seh.size() * 4 + (uint32_t)(ncfg.lock.size() + 1) * (plus ? 8 : 4);
    fn = [=](pe_base& pe) {
      image_config_info i;
      if (rmw) try { i = get_image_config(pe); } catch (const pe_exception&) {}
      else { i.set_lock_prefix_table_va(arg.cookie ^ 0x1000); i.set_se_handler_table_va(arg.edit ^ 0x2000); }   // of no meaning when the tables are written
      i.clear_se_handler_list(); i.clear_lock_prefix_list();
      i.set_time_stamp(arg.ts); i.set_major_version((uint16_t)arg.major); i.set_minor_version((uint16_t)arg.minor); i.set_global_flags_clear(arg.gfc); i.set_global_flags_set(arg.gfs);
      i.set_critical_section_default_timeout(arg.cst); i.set_process_heap_flags(arg.phf); i.set_service_pack_version((uint16_t)arg.csd);
      i.set_decommit_free_block_threshold(arg.dcf); i.set_decommit_total_free_threshold(arg.dct); i.set_max_allocation_size(arg.mas); i.set_virtual_memory_threshold(arg.vmt);
      i.set_process_affinity_mask(arg.pam); i.set_edit_list_va(arg.edit); i.set_security_cookie_va(arg.cookie);
      for (auto x : arg.seh) i.add_se_handler_rva(x);
      for (auto x : arg.lock) i.add_lock_prefix_rva(x);
      section tmp;
      if (again) {
        i.set_time_stamp(~arg.ts); i.set_security_cookie_va(arg.cookie / 2);
        rebuild_image_config(pe, i, target(pe, tmp), off, true, true, true, strip);
        image_config_info j = get_image_config(pe);
        i.set_se_handler_table_va(j.get_se_handler_table_va()); i.set_lock_prefix_table_va(j.get_lock_prefix_table_va());
        i.set_time_stamp(arg.ts); i.set_security_cookie_va(arg.cookie);
        i.clear_lock_prefix_list();   // only the number of handlers comes from the lists
        rebuild_image_config(pe, i, target(pe, tmp), off, false, false, true, strip);
      } else
      rebuild_image_config(pe, i, target(pe, tmp), off, true, true, true, strip);
    };
    fix = [this, ncfg, &s](const std::string&) {
      CfgFacts t = ncfg, g = lib_config(*s.pe);
      t.lpt = t.lock.empty() ? 0 : g.lpt;   // where the tables went is the library's choice
      t.seht = t.seh.empty() ? 0 : g.seht;
      return text(t);
    };
  } else if (c == "bnd") {
    nbnd = lib_bound(*s.pe);
    edit_bound(nbnd, r, amount);
    if (op.get("many", 0) && place != 2)
      for (int i = 0; i < 700; ++i) { BndMod m; m.name = fmt("m%d.", i) + rnd_name(r, 20); m.ts = i; nbnd.push_back(m); if (i % 90 == 7) for (int k = 0; k < 30; ++k) nbnd.back().refs.push_back({rnd_name(r, 30), 1}); }
    if (place != 2 && r.chance(1, 25) && nbnd.size()) for (int i = 0, k = 200 + (int)r.below(500); i < k; ++i) nbnd[0].refs.push_back({rnd_name(r, 12), (uint32_t)i});
    if (text(nbnd).size() > limit) return added;
    {
      size_t total = 8;
      for (auto& m : nbnd) { total += 8 + m.name.size() + 1; for (auto& f : m.refs) total += 8 + f.name.size() + 1; }
      if (total > 0xffff) may_refuse = true;   // offsets are 16 bits wide
    }
    std::vector<BndMod> arg = nbnd;
    fn = [=](pe_base& pe) {
      bound_import_module_list l, from;
      if (rmw) try { from = get_bound_import_module_list(pe); } catch (const pe_exception&) {}
      for (auto& m : arg) {
        bound_import b(m.name, m.ts);
        bound_import::ref_list old;
        if (l.size() < from.size()) { b = from[l.size()]; old = b.get_module_ref_list(); b.clear_module_refs(); b.set_module_name(m.name); b.set_timestamp(m.ts); }
        for (auto& f : m.refs) {
          bound_import_ref x(f.name, f.ts);
          if (b.get_module_ref_list().size() < old.size()) { x = old[b.get_module_ref_list().size()]; x.set_module_name(f.name); x.set_timestamp(f.ts); }
          b.add_module_ref(x);
        }
        l.push_back(b);
      }
      section tmp;
      rebuild_bound_imports(pe, l, target(pe, tmp), off, true, strip);
    };
    expect = text(nbnd);
  } else {
    nres = lib_resources(*s.pe);
    std::vector<ResStep> steps;
    bool man = op.get("man", 0) != 0;
    for (auto& kv : nres) if (kv.first.named[2]) man = false;
    if (man) { if (!res_steps(s, op, r, amount, nres, steps)) return added; }
    else edit_resources(nres, r, amount);
    size_t tot = 0;
    for (auto& kv : nres) tot += kv.second.data.size() + 64 + kv.first.text().size() * 2;
    if (tot > (place == 2 ? 0x1000u : 0x100000u) || nres.empty()) return added;
    if (!man && place == 0 && !no_room && r.chance(1, 6) && nres.size() > 1) {   // nothing at all right at the end of the section
      nres.rbegin()->second.data.clear();
      pe_base t(*s.pe);
      try {
        resource_directory d = tree_of(nres);
        rebuild_resources(t, d, t.get_image_sections()[idx], off, true, false);
        uint32_t end = off + t.get_directory_size(2), sa = s.pe->get_section_alignment();
        if (sa <= 0x10000 && end % sa) { auto& b = nres.begin()->second.data; b.resize((b.size() + 3) / 4 * 4 + (sa - (end + 3) / 4 * 4 % sa) % sa, 'e'); probe("resources-fill-section"); }
      } catch (const pe_exception&) {}
    }
    ResMap arg = nres;
    res_hdrs.reset(new std::string);
    auto base = std::make_shared<resource_directory>();   // read once: a failed attempt in place leaves nothing to read again
    if (man) { Lib l; if (s.pe->has_resources()) *base = get_resources(*s.pe); }
    fn = [=](pe_base& pe) {
      resource_directory d;
      if (man) {
        d = *base;
        for (auto& st : steps) lib_step(st, d);
      } else d = tree_of(arg);
      { Seam q; *res_hdrs = resource_headers(d); }
      section tmp;
      rebuild_resources(pe, d, target(pe, tmp), off, true, strip);
    };
    expect = text(nres);
  }
  std::string what = "edit " + c + fmt(" place=%d off=%x%s", (int)op.get("place", 0), off, reuse ? " reuse" : "");
  if (with_unattached) {
    may_refuse = true;
    if (attempt(s, op, what + " unattached", fn, {c}, true)) bad("unattached", what + ": rebuilding into a section that is not attached was accepted");
    after(s, what + " unattached", want, {"nsections", "size_of_image"}, {});
    return true;
  }
  bool ok = attempt(s, op, what, fn, {c}, may_refuse);
  if (ok && no_room) bad("inner-space", what + ": tables were placed behind the end of a section which is not the last one");
  if (!ok) {
    // a refused edit changes nothing that can be read, except possibly the part being edited
    std::set<std::string> sk = {c};
    if (c == "tls" || (c == "imp" && place == 30)) { want.secs = read_facts(*s.pe, &kNone).secs; }
    after(s, what + " (refused)", want, {"nsections", "size_of_image"}, sk);
    if (place == 30 || c == "tls") s.place.erase(c);
    return true;
  }
  Facts got = read_facts(*s.pe, &kNone);
  want.comp[c] = fix ? fix(expect) : expect;
  if (res_hdrs && J.comps.count("res")) {
    std::string h;
    { Lib l; resource_directory root = get_resources(*s.pe); Seam q; h = resource_headers(root); }
    if (h != *res_hdrs) bad("content-res-headers", what + ": headers of resource directories differ: " + diff(*res_hdrs, h));
  }
  // host section: bytes outside the written range stay; sizes follow
  if (idx < (int)got.secs.size() && got.secs.size() == want.secs.size()) {
    auto& w = want.secs[idx];
    auto& g = got.secs[idx];
    uint32_t rva = s.pe->get_directory_rva(comp_dir(c)), size = s.pe->get_directory_size(comp_dir(c));
    uint32_t end = extent_end ? extent_end : rva + size - host_va;
    if (c == "imp" && !(rva >= host_va)) end = off;
    std::string d = before_data;
    if (d.size() < g.data.size()) d.resize(g.data.size(), '\0');
    for (uint32_t i = off; i < end && i < d.size(); ++i) d[i] = i < g.data.size() ? g.data[i] : 0;   // stripped trailing zeros stay readable
    if (place == 30) d = g.data;
    w.data = d;
    (void)before_len;
    w.rawsize = g.rawsize;
    if (is_last || alup<uint32_t>(w.vsize, s.pe->get_section_alignment()) == alup<uint32_t>(g.vsize, s.pe->get_section_alignment())) w.vsize = g.vsize;
    Place p;
    p.ok = true; p.va = host_va; p.off = off; p.end = end;
    if (res_hdrs) p.hdrs = *res_hdrs;
    s.place[c] = p;
    s.used_end[host_va] = std::max(s.used_end[host_va], end + 16);
  }
  if (place == 30) for (size_t i = 0; i < want.secs.size() && i < got.secs.size(); ++i) want.secs[i].data = got.secs[i].data;   // rewritten address tables
  if (idx > 0 || is_last) {}
  after(s, what, want, sh, {});
  return true;
}

// Steps of a resource manager client on the image's own tree, each compared with
// the map model; steps may run out of memory first.
bool Session::res_steps(Slot& s, const Op& op, Rng& r, int amount, ResMap& model, std::vector<ResStep>& steps) {
  bool typed = op.get("typed", 0) != 0;
  bool judged = prop == "C05" || prop == "C06";
  resource_directory root;
  { Lib l; if (s.pe->has_resources()) root = get_resources(*s.pe); }
  int64_t sf = op.get("sf", -1);
  for (int i = 0; i < amount; ++i) {
    ResStep st = rnd_step(r, model, typed);
    ResMap before = model, actual;
    std::string res;
    bool fault = sf >= 0 && r.chance(1, 3);
    std::map<std::string, std::string> hdr0 = resource_header_map(root);
    if (fault) {
      resource_directory copy(root);
      t_alloc.count = 0;
      lib_step(st, copy);
      int64_t n = t_alloc.count;
      bool failed = false;
      uint64_t f0 = t_alloc.failed;
      t_alloc.count = 0;
      t_alloc.cfg.fail_at = n ? (int64_t)r.below(n) : 0;
      t_alloc.cfg.fail_count = r.chance(1, 4) ? 1000 : 1;
      try { res = lib_step(st, root); } catch (const std::bad_alloc&) { failed = true; } catch (const std::length_error&) { failed = true; }
      t_alloc.cfg.fail_at = -1;
      if (t_alloc.failed > f0) { fault_fired("alloc"); ++faulted; }
      actual.clear();
      flatten(root, actual);
      if (failed) {
        probe("resource-step-failed");
        ResMap goal = model;
        std::string pr;
        ResMap copied;
        flatten(copy, copied);
        // whatever is not part of the step is as before; what is part of it is as before or as intended
        if (judged) {
          for (auto& kv : before) if (copied.count(kv.first) && copied[kv.first].data == kv.second.data && copied[kv.first].codepage == kv.second.codepage && (!actual.count(kv.first) || actual[kv.first].data != kv.second.data)) bad("alloc-lost", st.text() + " failed for lack of memory and damaged " + kv.first.text());
          for (auto& kv : actual) if (!before.count(kv.first) && !copied.count(kv.first)) bad("alloc-extra", st.text() + " failed for lack of memory and left " + kv.first.text());
        }
        res = lib_step(st, root);
        actual.clear();
        flatten(root, actual);
      }
    } else {
      res = lib_step(st, root);
      flatten(root, actual);
    }
    if (judged && !fault) {   // directories which a step adds carry its time stamp, others keep their headers
      bool adds = st.kind == RS_ADD || st.kind == RS_BMP || st.kind == RS_ICON || st.kind == RS_CUR || st.kind == RS_VER || st.kind == RS_VER_EDIT;
      for (auto& h : resource_header_map(root)) {
        auto was = hdr0.find(h.first);
        if (was != hdr0.end() && was->second == h.second) continue;
        if (adds && (was == hdr0.end() || st.kind != RS_ADD) && h.second == fmt("0 %x 0.0", st.ts)) { probe("directory-added"); continue; }
        bad("step-dir-header", st.text() + " leaves directory " + h.first + " with header [" + h.second + "]" + (was == hdr0.end() ? fmt(", its time stamp was to be %x", st.ts) : ", it was [" + was->second + "]"));
      }
    }
    std::string pr, exp = model_step(st, model, actual, pr);
    g_stats.ops["res:" + st.text().substr(0, st.text().find(' '))]++;
    note("  " + st.text() + (fault ? " (out of memory first)" : "") + " -> " + res);
    if (judged) {
      if (!pr.empty()) bad("step", st.text() + ": " + pr);
      if (exp != "?" && exp != res) bad("step-result", st.text() + " gives \"" + res + "\", the model says \"" + exp + "\"");
      if (text(model) != text(actual)) bad("step-tree", "after " + st.text() + ": " + diff(text(model), text(actual)));
      res_views(root, model, Rng(st.seed), "after " + st.text());
      if ((st.kind == RS_ICON || st.kind == RS_CUR) && res == "ok" && !before.count(st.key)) probe("group-created");
    } else model = actual;
    steps.push_back(st);
  }
  return true;
}

void Session::res_views(const resource_directory& root, const ResMap& m, Rng r, const std::string& what) {
  std::string p = view_problem(root, m, r);
  if (!p.empty() && prop == "C05") bad("view", what + ": " + p);
  if (prop == "C06") {
    p = typed_problem(root, m, r);
    if (!p.empty()) bad("typed", what + ": " + p);
  }
}

void Session::res_views_of(Slot& s, const std::string& what) {
  if (prop != "C05" && prop != "C06") return;
  if (comp_now(s, "res").compare(0, 5, "error") == 0) return;
  resource_directory root;
  { Lib l; if (!s.pe->has_resources()) return; root = get_resources(*s.pe); }
  ResMap m;
  flatten(root, m);     // equal to the model: judged by content
  res_views(root, m, Rng(executed), what);
}

bool Session::op_remove(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  std::string c = kComponents[op.get("c") % 10];
  int d = comp_dir(c);
  if (d < 0) return false;
  Facts want = s->f;
  if (!attempt(*s, op, "remove " + c, [=](pe_base& pe) { pe.remove_directory(d); }, {c}, false)) return true;
  std::string k = fmt("dir%02d", d);
  bool existed = want.hdr.count(k) && want.hdr[k].substr(0, 2) != "0+";
  if (existed) {
    want.hdr[k] = "0+0";
    if (c == "rel") {
      want.hdr["characteristics"] = fmt("%llu", strtoull(want.hdr["characteristics"].c_str(), 0, 10) | 1ull);
      want.hdr["dllchar"] = fmt("%llu", strtoull(want.hdr["dllchar"].c_str(), 0, 10) & ~0x40ull);
    }
    if (c == "exp") want.hdr["characteristics"] = fmt("%llu", strtoull(want.hdr["characteristics"].c_str(), 0, 10) & ~0x2000ull);
    want.comp[c] = c == "imp" ? text(std::vector<ImpLib>()) : c == "rel" ? text(std::vector<RelTable>()) : c == "bnd" ? text(std::vector<BndMod>())
                 : (c == "exp" || c == "tls" || c == "cfg" || c == "res") ? "absent" : "";
  }
  after(*s, "remove " + c, want, {}, {});
  return true;
}

bool Session::op_section(const Op& op) {
  Slot* s = slot(op);
  if (!s || s->f.secs.size() >= 0x50) return false;
  Rng r((uint64_t)op.get("seed", 1));
  int mode = (int)op.get("mode", 0);
  Facts want = s->f;
  uint32_t sa = s->pe->get_section_alignment(), fa = s->pe->get_file_alignment();
  if (mode == 0) {   // add
    std::string raw = rnd_blob(r, 3000);
    uint32_t vs = raw.empty() || r.chance(1, 2) ? 1 + (uint32_t)r.below(0x3000) : 0;
    std::string name = "." + rnd_name(r, 5);
    if (name.size() > 8) name.resize(8);
    if (!attempt(*s, op, "section add", [&](pe_base& pe) { add_section_to(pe, name, raw, vs, false); }, {"hdr"}, false)) return true;
    Facts got = read_facts(*s->pe, &kNone);
    if (got.secs.size() != want.secs.size() + 1) bad("sections", "add_section did not add exactly one section");
    LibSec n;
    n.name = name;
    if (!want.secs.empty()) {
      auto& l = want.secs.back();
      n.va = l.va + alup<uint32_t>(l.vsize ? l.vsize : l.rawsize, sa);
      l.rawsize = alup<uint32_t>((uint32_t)l.data.size(), fa);
    } else n.va = alup<uint32_t>((uint32_t)strtoul(want.hdr["size_of_headers"].c_str(), 0, 10), sa);
    n.rawsize = alup<uint32_t>((uint32_t)raw.size(), fa);
    n.vsize = got.secs.back().vsize;
    if (n.vsize < n.rawsize || n.vsize < vs) bad("sections", fmt("added section has virtual size %x for %x raw bytes, asked %x", n.vsize, n.rawsize, vs));
    n.rawptr = got.secs.back().rawptr;
    n.chars = got.secs.back().chars;
    n.data = raw;
    want.secs.push_back(n);
    want.hdr["nsections"] = fmt("%zu", want.secs.size());
    s->used_end[n.va] = std::max<uint32_t>(n.vsize, (uint32_t)raw.size());
    after(*s, "section add", want, {"size_of_image"}, {});
    return true;
  }
  if (want.secs.empty()) return false;
  if (mode == 1) {   // rename / flags of any section
    size_t i = r.below(want.secs.size());
    std::string name = rnd_name(r, 5);
    if (name.size() > 8) name.resize(8);
    bool fl = r.chance(1, 2);
    uint32_t flag = 1u << (25 + r.below(7));
    if (!attempt(*s, op, "section rename", [&](pe_base& pe) {
          section& x = pe.get_image_sections()[i];
          x.set_name(name);
          if (flag == 0x40000000) x.readable(fl);
          else if (flag == 0x80000000) x.writeable(fl);
          else if (flag == 0x20000000) x.executable(fl);
          else if (flag == 0x10000000) x.shared(fl);
          else if (flag == 0x02000000) x.discardable(fl);
          else x.set_characteristics(x.get_characteristics());
        }, {"hdr"}, false)) return true;
    want.secs[i].name = name;
    if (flag != 0x04000000 && flag != 0x08000000) want.secs[i].chars = fl ? want.secs[i].chars | flag : want.secs[i].chars & ~flag;
    after(*s, "section rename", want, {}, {});
    return true;
  }
  if (mode == 2) {   // grow the last section's virtual size
    uint32_t add = 1 + (uint32_t)r.below(0x3000);
    auto& l = want.secs.back();
    uint32_t nv = std::max(l.vsize, l.rawsize) + add;
    if (!attempt(*s, op, "section vsize", [&](pe_base& pe) { pe.set_section_virtual_size(pe.get_image_sections().back(), nv); }, {"hdr"}, false)) return true;
    l.vsize = nv;
    want.hdr["size_of_image"] = fmt("%u", l.va + alup<uint32_t>(nv, sa));
    s->used_end[l.va] = std::max(s->used_end[l.va], nv);
    after(*s, "section vsize", want, {}, {});
    return true;
  }
  if (mode == 3) {   // expand the last section
    auto& l = want.secs.back();
    bool raw = r.chance(1, 2);
    uint32_t base = std::max<uint32_t>(l.vsize, (uint32_t)l.data.size());
    uint32_t nd = 1 + (uint32_t)r.below(0x1800);
    if (!attempt(*s, op, "section expand", [&](pe_base& pe) {
          pe.expand_section(pe.get_image_sections().back(), l.va + base - 1, nd, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual);
        }, {"hdr"}, !l.vsize)) return true;
    Facts got = read_facts(*s->pe, &kNone);
    LibSec g = got.secs.back();
    if (raw && g.data.size() < base - 1 + nd) bad("sections", "expand_section did not provide the raw space asked for");
    if (alup<uint32_t>(g.vsize ? g.vsize : g.rawsize, sa) < base - 1 + nd) bad("sections", "expand_section did not provide the space asked for");
    l.vsize = g.vsize; l.rawsize = g.rawsize;
    s->used_end[l.va] = std::max<uint32_t>(s->used_end[l.va], std::max<uint32_t>(g.vsize, (uint32_t)g.data.size()));
    after(*s, "section expand", want, {"size_of_image"}, {});
    return true;
  }
  if (mode == 4) {   // raw bytes of a section (same length) through the accessor
    size_t i = r.below(want.secs.size());
    if (want.secs[i].data.empty() || prop != "C01") return false;
    size_t at = r.below(want.secs[i].data.size());
    char v = (char)r.next();
    if (!attempt(*s, op, "section poke", [&](pe_base& pe) { pe.get_image_sections()[i].get_raw_data()[at] = v; }, {"hdr"}, false)) return true;
    want.secs[i].data[at] = v;
    Facts g = look(*s->pe);
    want.comp = g.comp;
    after(*s, "section poke", want, {}, {});
    return true;
  }
  if (mode >= 5 && mode <= 7) {   // alignment edits: realign_file, realign_section, set_file_alignment
    uint32_t nfa = 512u << r.below(5);
    bool may = nfa > sa;
    size_t one = r.below(want.secs.size());
    std::string what = mode == 5 ? fmt("realign_file %u", nfa) : mode == 6 ? fmt("realign_section %zu", one) : fmt("set_file_alignment %u", nfa);
    if (!attempt(*s, op, what, [&](pe_base& pe) {
          if (mode == 5) pe.realign_file(nfa);
          else if (mode == 6) pe.realign_section((uint32_t)one);
          else pe.set_file_alignment(nfa);
        }, {"hdr"}, may && mode != 6)) { after(*s, what + " refused", want, {}, {}); return true; }
    if (may && mode != 6) bad("alignment", what + " accepted although the section alignment is smaller");
    if (mode != 6) { want.hdr["file_alignment"] = fmt("%u", nfa); fa = nfa; }
    if (mode != 7)
      for (size_t i = 0; i < want.secs.size(); ++i) {
        if (mode == 6 && i != one) continue;
        auto& x = want.secs[i];
        if (i + 1 == want.secs.size()) { if (!x.vsize) x.vsize = x.rawsize; x.data = stripz(x.data); x.rawsize = (uint32_t)x.data.size(); }
        else { x.rawsize = alup<uint32_t>(x.rawsize, fa); x.data.resize(x.rawsize, '\0'); }
      }
    after(*s, what, want, {}, {});
    probe("edit:alignment");
    return true;
  }
  return false;
}

bool Session::op_header(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  Rng r((uint64_t)op.get("seed", 1));
  bool plus = s->pe->get_pe_type() == pe_type_64;
  Facts want = s->f;
  auto W = [&](const char* k, uint64_t v) { want.hdr[k] = fmt("%llu", (unsigned long long)v); };
  uint32_t v32 = (uint32_t)r.next();
  uint16_t a = (uint16_t)r.next(), b = (uint16_t)r.next();
  uint64_t v64 = plus ? r.next() : v32;
  std::set<std::string> skc;
  std::function<void(pe_base&)> fn;
  switch (op.get("f", 0) % 16) {
    case 0: fn = [=](pe_base& p) { p.set_ep(v32); }; W("ep", v32); break;
    case 1: fn = [=](pe_base& p) { p.set_time_date_stamp(v32); }; W("timestamp", v32); break;
    case 2: fn = [=](pe_base& p) { p.set_checksum(v32); }; W("checksum", v32); break;
    case 3: fn = [=](pe_base& p) { p.set_os_version(a, b); }; W("os_major", a); W("os_minor", b); break;
    case 4: fn = [=](pe_base& p) { p.set_subsystem_version(a, b); }; W("sub_major", a); W("sub_minor", b); break;
    case 5: fn = [=](pe_base& p) { p.set_subsystem((uint16_t)(a % 17)); }; W("subsystem", a % 17); break;
    case 6: fn = [=](pe_base& p) { p.set_dll_characteristics(a); }; W("dllchar", a); break;
    case 7: fn = [=](pe_base& p) { p.set_stack_size_commit(v64); p.set_stack_size_reserve(v64 ^ 0x5555); }; W("stack_commit", v64); W("stack_reserve", v64 ^ 0x5555); break;
    case 8: fn = [=](pe_base& p) { p.set_heap_size_commit(v64); p.set_heap_size_reserve(v64 ^ 0x3333); }; W("heap_commit", v64); W("heap_reserve", v64 ^ 0x3333); break;
    case 9: fn = [=](pe_base& p) { p.set_characteristics_flags((uint16_t)(a & 0x0fe0)); };
      W("characteristics", strtoull(want.hdr["characteristics"].c_str(), 0, 10) | (a & 0x0fe0)); break;
    case 10: fn = [=](pe_base& p) { p.clear_characteristics_flags((uint16_t)(a & 0x0fe0)); };
      W("characteristics", strtoull(want.hdr["characteristics"].c_str(), 0, 10) & ~(uint64_t)(a & 0x0fe0)); break;
    case 11: fn = [=](pe_base& p) { p.set_base_of_code(v32); }; W("base_of_code", v32); break;
    case 12: fn = [=](pe_base& p) { p.set_machine(a); }; W("machine", a); break;
    case 13: {   // image base: addresses stored as VAs then mean something else, so only move it when nothing stores VAs
      if (s->f.comp["tls"] != "absent" || s->f.comp["cfg"] != "absent") return false;
      uint64_t nb = plus ? ((v64 & 0x7fffffff0000ull) | 0x10000) : (v32 & 0x3fff0000u) | 0x10000;
      fn = [=](pe_base& p) { if (plus) p.set_image_base_64(nb); else p.set_image_base((uint32_t)nb); };
      W("image_base", nb);
      break;
    }
    case 14: {   // data directory entry that no reader interprets
      if (strtoul(want.hdr["ndirs"].c_str(), 0, 10) < 16) return false;
      int d = (const int[]){4, 7, 8, 15}[a % 4];
      fn = [=](pe_base& p) { p.set_directory_rva(d, v32 | 1); p.set_directory_size(d, b); };
      want.hdr[fmt("dir%02d", d)] = fmt("%x+%x", v32 | 1, (unsigned)b);
      break;
    }
    default: {   // drop trailing unused data directories
      if (op.get("f", 0) % 16 != 15) return false;
      uint32_t minc = (uint32_t)r.below(17);
      fn = [=](pe_base& p) { p.strip_data_directories(minc, false); };
      uint32_t n = (uint32_t)strtoul(want.hdr["ndirs"].c_str(), 0, 10), k = n;
      while (k > 0 && (int)k - 1 > (int)minc - 2 && want.hdr[fmt("dir%02u", k - 1)].substr(0, 2) == "0+") --k;
      for (uint32_t i = k; i < n; ++i) want.hdr.erase(fmt("dir%02u", i));
      W("ndirs", k);
      break;
    }
  }
  std::string what = fmt("header f=%d", (int)op.get("f", 0));
  if (!attempt(*s, op, what, fn, {"hdr"}, false)) return true;
  after(*s, what, want, {}, skc);
  return true;
}

bool Session::op_stub(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  Rng r((uint64_t)op.get("seed", 1));
  Facts want = s->f;
  std::string d = rnd_blob(r, 90);
  if (d.size() > 200) d.resize(200);
  int m = (int)op.get("mode", 0) % 3;
  if (!attempt(*s, op, "stub", [=](pe_base& p) { if (m == 0) p.set_stub_overlay(d); else if (m == 1) p.strip_stub_overlay(); else p.fill_stub_overlay((char)0x41); }, {"hdr", "rich"}, false)) return true;
  if (m == 0) want.stub = d;
  else if (m == 1) want.stub.clear();
  else want.stub.assign(want.stub.size(), (char)0x41);
  after(*s, "stub", want, {}, {"rich"});
  return true;
}

static std::string ref_secs_text(const RefPe& r) {
  std::string t;
  for (auto& s : r.secs) {
    LibSec x;
    x.name = s.name; x.va = s.va; x.vsize = s.vsize; x.rawsize = s.rawsize; x.chars = s.chars; x.data = s.data;
    t += sec_text(x) + "\n";
  }
  return t;
}

void Session::check_file(Slot& s, const std::string& bytes, const std::string& what, bool chs) {
  RefPe ref(bytes);
  if (!ref.ok) bad("file", what + ": saved file is not a PE image: " + ref.err);
  for (auto& c : J.comps) {
    if (c == "dbg") continue;   // payload file offsets refer to the file that was loaded
    std::string got = ref.component(c);
    if (!same_comp(s.f.comp[c], got)) bad("file-" + c, what + ": saved file holds other content: [" + c + "] " + diff(s.f.comp[c], got));
  }
  if (J.problems) {
    std::string e;
    if (J.comps.count("imp") && !(e = ref.import_problems()).empty()) bad("file-imp", what + ": " + e);
    if (J.comps.count("exp") && s.place.count("exp") && !(e = ref.export_lookup_problems()).empty()) bad("file-exp", what + ": " + e);
    if (J.comps.count("res") && s.place.count("res") && !(e = ref.resource_order_problems()).empty()) bad("file-res", what + ": " + e);
    if (J.comps.count("res") && s.place.count("res") && !s.place["res"].hdrs.empty() && ref.dir(2).first && s.place["res"].hdrs != (e = ref.resource_headers())) bad("file-res-headers", what + ": " + diff(s.place["res"].hdrs, e));
  }
  if (J.layout) {
    std::string e = ref.layout_problems(true, chs);
    if (!e.empty()) bad("layout", what + ": " + e);
  }
  if (J.header) {
    KV a = s.f.hdr, b = ref.hdr;
    if (a != b) {
      // a bound import table kept in the headers moves with them
      a.erase("dir11"); b.erase("dir11");
      if (a != b) bad("file-header", what + ": saved header differs from the image: " + diff(a, b));
    }
    if (pad4(s.f.stub) != pad4(ref.stub)) bad("file-stub", what + ": saved DOS stub differs from the image");
  }
  if (J.sections) {
    std::string a = secs_text(s.f.secs), b = ref_secs_text(ref);
    if (a != b) bad("file-sections", what + ": saved sections differ from the image: " + diff(a, b));
  }
}

bool Session::op_save(const Op& op) {
  Slot* s = slot(op);
  if (!s || s->f.secs.empty()) return false;
  Facts want = s->f;
  std::string bytes;
  uint64_t noise = (uint64_t)op.get("noise", 0);
  // header options; a bound import table kept in the headers needs both defaults
  uint32_t b11 = want.hdr.count("dir11") ? (uint32_t)strtoul(want.hdr["dir11"].c_str(), 0, 16) : 0;
  bool hb = b11 && b11 < want.secs.front().va;
  bool strip = op.get("strip", 0) != 0, chs = hb || op.get("chs", 1) != 0, bnd = hb || op.get("bnd", 1) != 0;
  auto fn = [&](pe_base& pe) { bytes.clear(); bytes = save(pe, noise, strip, chs, bnd); };
  bool ok;
  {
    Op o = op;
    ok = attempt(*s, o, "save", fn, {"hdr"}, op.get("mayrefuse", 1) != 0);
  }
  if (!ok) {
    // refused: only legitimate when the headers do not fit
    uint32_t first = s->f.secs.front().va;
    uint32_t room = 64 + (uint32_t)pad4(s->f.stub).size() + 264 + (uint32_t)s->f.secs.size() * 40 + 0x200;
    uint32_t fa = s->pe->get_file_alignment();
    std::string b = s->f.hdr.count("dir11") ? s->f.hdr["dir11"] : "0+0";
    uint32_t bs = (uint32_t)strtoul(b.substr(b.find('+') + 1).c_str(), 0, 16);
    if (alup<uint32_t>(room + bs, fa) < first && s->f.comp["bnd"].compare(0, 5, "error")) bad("save-refused", "saving a well-formed image was refused");
    return true;
  }
  if (keep_saves) saves.push_back(bytes);
  Facts got = look(*s->pe);
  for (size_t i = 0; i < want.secs.size() && i < got.secs.size(); ++i) want.secs[i].rawptr = got.secs[i].rawptr;
  std::set<std::string> skip = {"nsections", "size_of_image", "size_of_opt"}, skc;
  if (chs) skip.insert("size_of_headers");
  if (strip) { want.stub.clear(); want.hdr["base_of_code"] = "16"; skc.insert("rich"); probe("save:strip-dos"); }
  if (!chs) probe("save:keep-size-of-headers");
  after(*s, "save", want, skip, skc);
  check_file(*s, bytes, "save", chs);
  note(fmt("saved %zu %016llx", bytes.size(), (unsigned long long)fnv(bytes)));
  if (J.resave) {
    std::string again;
    { Lib l; }
    again = save(*s->pe, noise / 3 + 1, strip, chs, bnd);
    if (again != bytes) {
      size_t k = 0;
      while (k < again.size() && k < bytes.size() && again[k] == bytes[k]) ++k;
      bad("resave", fmt("saving the same image twice gives different bytes (offset %zx, sizes %zx and %zx)", k, bytes.size(), again.size()));
    }
    Slot t;
    try { load(t, bytes, noise / 5); } catch (const pe_exception& e) { bad("reload", std::string("saved image refused on load: ") + e.what()); }
    std::string third = save(*t.pe, noise / 11, strip, chs, bnd);
    if (third != bytes) {
      size_t k = 0;
      while (k < third.size() && k < bytes.size() && third[k] == bytes[k]) ++k;
      bad("resave", fmt("save, reload, save gives different bytes (offset %zx, sizes %zx and %zx)", k, bytes.size(), third.size()));
    }
  }
  s->disk = bytes;
  s->has_disk = true;
  s->disk_f = s->f;
  s->disk_place = s->place;
  return true;
}

bool Session::op_restart(const Op& op) {
  Slot* s = slot(op);
  if (!s || !s->has_disk) return false;
  bool crash = op.name != "restart", dump = op.name == "dump";
  if (!crash) {   // an orderly restart saves first
    Op o = op;
    o.name = "save";
    o.a.erase("af");
    std::string before = s->disk;
    op_save(o);
    if (s->f.secs.empty() || s->disk == before) {}
  } else if (dump) {
    probe("load:memory-dump");
  } else {
    fault_fired("crash");
    op_faults.insert("crash");
  }
  Facts want = s->disk_f;
  s->pe.reset();
  Slot t;
  try { load(t, dump ? memory_dump(s->disk) : s->disk, (uint64_t)op.get("noise", 0) + 3, dump); }
  catch (const pe_exception& e) { bad("reload", std::string(dump ? "memory dump of the saved image refused on load: " : "saved image refused on load: ") + e.what()); }
  s->pe = std::move(t.pe);
  Facts got = look(*s->pe);
  RefPe ref(s->disk);
  want.comp["dbg"] = dump ? got.comp["dbg"] : ref.debug();   // debug payloads lie at file offsets, which a dump does not have
  if (got.hdr.count("dir11") && want.hdr.count("dir11") && want.comp["bnd"] == got.comp["bnd"]) want.hdr["dir11"] = got.hdr["dir11"];   // table kept in the headers
  for (size_t i = 0; i < want.secs.size() && i < got.secs.size(); ++i) {
    want.secs[i].rawptr = got.secs[i].rawptr;
    // a loader shows no more raw data than the virtual size when the file holds more
    if (want.secs[i].vsize && alup<uint32_t>(want.secs[i].rawsize, s->pe->get_file_alignment()) > alup<uint32_t>(want.secs[i].vsize, s->pe->get_section_alignment())) want.secs[i].rawsize = want.secs[i].vsize;
  }
  after(*s, dump ? "load from memory dump" : crash ? "crash+restart" : "restart", want, {"size_of_headers", "nsections", "size_of_image", "size_of_opt"}, {});
  s->place = s->disk_place;
  bool arena = false;
  for (auto& x : s->f.secs) if (x.va == s->arena_va && x.name == ".arena") arena = true;
  if (!arena) s->arena_va = 0;
  s->used_end.clear();
  for (auto& x : s->f.secs) s->used_end[x.va] = std::max<uint32_t>(x.vsize, (uint32_t)x.data.size());
  for (auto& p : s->place) s->used_end[p.second.va] = std::max(s->used_end[p.second.va], p.second.end + 16);
  res_views_of(*s, "restart");
  return true;
}

bool Session::op_copy(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  int t = (int)op.get("t", 1);
  int how = (int)op.get("how", 0);
  if (t == (int)op.get("s", 0)) return false;
  while ((int)slots.size() <= t) slots.emplace_back();
  if (how == 0 || !slots[t] || !slots[t]->pe) {
    std::unique_ptr<pe_base> n;
    { Lib l; n.reset(new pe_base(*s->pe)); }
    slots[t].reset(new Slot);
    slots[t]->pe = std::move(n);
  } else {
    Lib l;
    *slots[t]->pe = *s->pe;
  }
  Slot& d = *slots[t];
  d.f = s->f; d.disk = s->disk; d.has_disk = s->has_disk; d.disk_f = s->disk_f; d.place = s->place; d.disk_place = s->disk_place; d.imp_hosts = s->imp_hosts;
  d.arena_va = s->arena_va; d.next_sec = s->next_sec + (prop == "C16" ? 0 : 40); d.used_end = s->used_end;
  after(d, "copy", s->f, {}, {});
  return true;
}

bool Session::op_rebase(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  bool plus = s->pe->get_pe_type() == pe_type_64;
  Rng r((uint64_t)op.get("seed", 1));
  uint64_t old = strtoull(s->f.hdr["image_base"].c_str(), 0, 10);
  uint64_t nb = op.has("to") ? (uint64_t)op.get("to") : plus ? (r.next() & 0x7ffffff0000ull) : (r.next() & 0x7fff0000ull);
  if (!plus) nb &= 0xffffffffull;
  std::vector<RelTable> t = lib_relocs(*s->pe, false);
  // model: every named location grows by the difference
  Facts want = s->f;
  uint32_t w = plus ? 8 : 4;
  bool bad_spot = false;
  if (op.get("badentry", 0)) {
    RelTable x;
    x.rva = 0x7ff00000;
    x.items.push_back((uint16_t)(0x10 | (plus ? 10 : 3) << 12));
    t.push_back(x);
  }
  for (auto& tab : t)
    for (auto i : tab.items) {
      uint32_t rva = tab.rva + (i & 0xfff);
      bool done = false;
      for (auto& sec : want.secs)
        if (rva >= sec.va && (uint64_t)rva + w <= sec.va + sec.data.size()) {
          uint64_t v = plus ? le64(sec.data, rva - sec.va) : le32(sec.data, rva - sec.va);
          v += nb - old;
          if (plus) put64(sec.data, rva - sec.va, v); else put32(sec.data, rva - sec.va, (uint32_t)v);
          done = true;
        }
      if (!done) bad_spot = true;
    }
  auto fn = [&](pe_base& pe) {
    relocation_table_list l;
    if (op.get("badentry", 0)) {
      l = get_relocations(pe);
      relocation_table x(0x7ff00000);
      x.add_relocation(relocation_entry(0x10, plus ? 10 : 3));
      l.push_back(x);
    } else l = get_relocations(pe);
    rebase_image(pe, l, nb);
  };
  std::set<std::string> everything(kComponents.begin(), kComponents.end());
  bool ok = attempt(*s, op, "rebase", fn, everything, bad_spot);
  Facts got = look(*s->pe);
  if (!ok) {
    // failing part-way leaves every byte as it was
    if (secs_text(got.secs) != secs_text(s->f.secs)) bad("rebase-partial", "a refused rebase changed section bytes: " + diff(secs_text(s->f.secs), secs_text(got.secs)));
    if (got.hdr != s->f.hdr) bad("rebase-partial", "a refused rebase changed the header: " + diff(s->f.hdr, got.hdr));
    s->f = got;
    return true;
  }
  if (bad_spot) bad("rebase", "a relocation that names no location was accepted");
  want.hdr["image_base"] = fmt("%llu", (unsigned long long)nb);
  if (secs_text(want.secs) != secs_text(got.secs)) bad("rebase", "rebase changed other bytes than the table names: " + diff(secs_text(want.secs), secs_text(got.secs)));
  if (want.hdr != got.hdr) bad("rebase", "rebase changed the header: " + diff(want.hdr, got.hdr));
  want.comp = got.comp;
  want.comp["rel"] = s->f.comp["rel"];
  after(*s, fmt("rebase %llx->%llx", (unsigned long long)old, (unsigned long long)nb), want, {}, {});
  return true;
}

// Reading in any order, through raw and virtual views, must not change anything.
bool Session::op_read(const Op& op) {
  Slot* s = slot(op);
  if (!s) return false;
  Rng r((uint64_t)op.get("seed", 1));
  Facts want = s->f;
  pe_base& pe = *s->pe;
  const pe_base& cpe = pe;
  int n = 1 + (int)op.get("n", 4);
  for (int k = 0; k < n; ++k) {
    int w = (int)r.below(6);
    if (w < 3) {
      std::string c = kComponents[r.below(11)];
      std::string t = lib_component(pe, c);
      if (J.comps.count(c) && !same_comp(want.comp[c], t)) bad("order-" + c, "reading [" + c + "] gives another result after other reads: " + diff(want.comp[c], t));
    } else if (!want.secs.empty()) {
      size_t i = r.below(want.secs.size());
      Lib l;
      try {
        if (w == 3) cpe.get_image_sections()[i].get_virtual_data(pe.get_section_alignment());
        else if (w == 4) { pe.get_image_sections()[i].get_raw_data(); if (!want.secs[i].data.empty()) cpe.section_data_from_rva(want.secs[i].va, section_data_virtual); }
        else { cpe.section_data_from_rva<uint32_t>(want.secs[i].va, section_data_virtual, true); entropy_calculator::calculate_entropy(cpe.get_image_sections()[i]); }
      } catch (const pe_exception&) {}
    }
  }
  after(*s, "read", want, {}, {});
  res_views_of(*s, "read");
  return true;
}

}  // namespace sim
