// Stream properties: C10 (load through a faulty stream), C11 (lent streams),
// C12 (failed saves), C18 (checksum and entropy), C19 (torn saves).
#include "exec.h"
#include <algorithm>
#include <cmath>
using namespace pe_bliss;

namespace sim {

static const uint32_t kChunks[] = {0, 1, 3, 7, 16, 37, 64, 512, 1000, 4096, 8192};
static const uint32_t kBufs[] = {0, 0, 1, 7, 64, 512, 4096, 100000};

void pick_image(Rng& r, Op& o) {
  int w = (int)r.below(20);
  static const int small[] = {2, 3, 7, 8}, big[] = {0, 1, 4, 5, 6, 6};
  o.set("kind", w < 15 ? 100 + (int)r.below(64) : w < 19 ? small[r.below(4)] : big[r.below(6)]);
  o.set("seed", (int64_t)(r.next() >> 20));
}
std::string image_of(const Op& o) { return base_image((int)o.get("kind", 100), (uint64_t)o.get("seed", 1)); }

static void pick_fault(Rng& r, Op& o, bool write) {
  o.set("fk", write ? (int64_t)(1 + r.below(4)) : (int64_t)(1 + r.below(3)));
  o.set("at", r.chance(1, 6) ? 0 : r.chance(1, 6) ? 999 : (int64_t)r.below(1000));
  o.set("cnt", r.chance(1, 2) ? 1 : r.chance(1, 2) ? (int64_t)(2 + r.below(4)) : 1000000000);
  if (!write) o.set("mask", r.chance(1, 2) ? 7 : 1 << r.below(3));
  else o.set("mask", r.chance(2, 3) ? 8 : 15);
}
static std::ios::iostate mask_of(int64_t m) {
  std::ios::iostate s = std::ios::goodbit;
  if (m & 1) s |= std::ios::badbit;
  if (m & 2) s |= std::ios::failbit;
  if (m & 4) s |= std::ios::eofbit;
  return s;
}

struct Loaded { std::unique_ptr<pe_base> pe; std::string how; bool foreign = false; };
static Loaded try_load(std::istream& in, bool dbg = true, bool raw = false) {
  Loaded l;
  try {
    Lib g;
    l.pe.reset(new pe_base(pe_factory::create_pe(in, raw, dbg)));
    l.how = "ok";
  } catch (const pe_exception& e) { l.how = std::string("pe_exception ") + e.what(); }
  catch (const std::bad_alloc&) { l.how = "bad_alloc"; }
  catch (const std::exception& e) { l.how = std::string("foreign ") + e.what(); l.foreign = true; }
  return l;
}

// debug entries: the stored entry must be right; the payload may be absent, never wrong
static std::vector<std::string> split_debug(const std::string& t) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(p, e - p);
    if (l.compare(0, 2, "  ") == 0 && !v.empty()) v.back() += "\n" + l;
    else v.push_back(l);
    p = e + 1;
  }
  return v;
}
static std::string debug_head(const std::string& e) {
  size_t best = e.size();
  for (const char* k : {" pdb7 ", " pdb2 ", " misc ", " coff ", " cv4", " cv5", " cv", " ?"}) { size_t p = e.find(k); if (p != std::string::npos && p < best) best = p; }
  return e.substr(0, best);
}
static std::string debug_problem(const std::string& want, const std::string& got) {
  if (want == got) return "";
  if (want.compare(0, 5, "error") == 0 || got.compare(0, 5, "error") == 0) return "debug information became " + got.substr(0, 60);
  auto a = split_debug(want), b = split_debug(got);
  if (a.size() != b.size()) return fmt("%zu debug entries instead of %zu", b.size(), a.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i] && debug_head(a[i]) != b[i]) return "debug entry is [" + b[i] + "] instead of [" + a[i] + "]";
  return "";
}

static void check_against_ref(const std::string& prop, const pe_base& pe, const std::string& bytes) {
  RefPe ref(bytes);
  if (!ref.ok) throw std::runtime_error("reference decoder rejects base image: " + ref.err);
  KV h = lib_header_raw(pe);
  if (h != ref.hdr) violate(prop + ":header", "loaded header differs from the file: " + diff(ref.hdr, h));
  auto s = lib_sections(pe);
  if (s.size() != ref.secs.size()) violate(prop + ":sections", "loaded image has another number of sections than the file");
  for (size_t i = 0; i < s.size(); ++i) {
    auto& q = ref.secs[i];
    std::string want = q.effective(ref.falign, ref.salign);
    if (s[i].data != want || s[i].va != q.va || s[i].vsize != q.vsize || s[i].chars != q.chars || s[i].name != q.name)
      violate(prop + ":sections", fmt("section %zu differs from the file (%zu bytes loaded, %zu stored)", i, s[i].data.size(), want.size()));
  }
  std::string st;
  { Lib l; st = pe.get_stub_overlay(); }
  std::string a = st, b = ref.stub;
  if (a != b) violate(prop + ":stub", "loaded DOS stub differs from the file");
}

// ------------------------------------------------------------------ C10
static void gen_c10(Rng& r, Plan& p, bool th) {
  int n = 1 + (int)r.below(th ? 8 : 4);
  for (int i = 0; i < n; ++i) {
    Op& o = p.add("load");
    pick_image(r, o);
    o.set("chunk", kChunks[r.below(11)]);
    o.set("dbg", r.chance(4, 5));
    int k = 1 + (int)r.below(3);
    for (int j = 0; j < k; ++j) {
      Op& f = p.add("fault");
      f.set("chunk", kChunks[r.below(11)]);
      pick_fault(r, f, false);
      f.set("xm", r.chance(1, 4) ? (int64_t)r.below(8) : 0);
    }
  }
}
static void run_c10(const Plan& p, RunInfo& info) {
  std::string bytes, E0, D0;
  bool have = false, dbg = true;
  int64_t N = 0;
  int fired = 0;
  t_alloc.cfg.poison = (unsigned char)(p.seed * 31 + 7);
  for (auto& op : p.ops) {
    if (op.name == "load") {
      bytes = image_of(op);
      dbg = op.get("dbg", 1) != 0;
      IoCfg c;
      SimBuf b(&bytes, nullptr, c);
      std::istream in(&b);
      Loaded l = try_load(in, dbg);
      if (!l.pe) violate("C10:load", "well-formed image refused: " + l.how);
      check_against_ref("C10", *l.pe, bytes);
      E0 = lib_everything(*l.pe, false);
      D0 = lib_component(*l.pe, "dbg");
      // the same through another chunking
      IoCfg c2;
      c2.chunk = (uint32_t)op.get("chunk", 0);
      SimBuf b2(&bytes, nullptr, c2);
      std::istream in2(&b2);
      Loaded l2 = try_load(in2, dbg);
      if (!l2.pe) violate("C10:chunked", fmt("image refused when delivered in pieces of %u bytes: ", c2.chunk) + l2.how);
      std::string e2 = lib_everything(*l2.pe, false), d2 = lib_component(*l2.pe, "dbg");
      if (e2 != E0 || d2 != D0) violate("C10:chunked", fmt("image delivered in pieces of %u bytes differs: ", c2.chunk) + diff(E0 + D0, e2 + d2));
      have = true;
      g_stats.ops["load"]++;
      EV("load %zu ops=%lld", bytes.size(), (long long)b2.ops);
      continue;
    }
    if (op.name != "fault" || !have) continue;
    uint32_t chunk = (uint32_t)op.get("chunk", 0);
    {   // how many device operations such a load takes
      IoCfg c; c.chunk = chunk;
      SimBuf b(&bytes, nullptr, c);
      std::istream in(&b);
      try_load(in, dbg);
      N = b.ops;
    }
    IoCfg c;
    c.chunk = chunk;
    c.kind = (int)op.get("fk", 1);
    c.at = op.get("at", 0) * N / 1000;
    c.count = op.get("cnt", 1);
    c.ops_mask = (unsigned)op.get("mask", 7);
    SimBuf b(&bytes, nullptr, c);
    std::istream in(&b);
    int64_t xm = op.get("xm", 0);
    in.exceptions(mask_of(xm));
    Loaded l = try_load(in, dbg);
    fired += b.fired != 0;
    if (l.pe) {
      std::string e = lib_everything(*l.pe, false), d = lib_component(*l.pe, "dbg"), q;
      if (e != E0) violate("C10:silent", "a load with a device fault succeeded with other content: " + diff(E0, e));
      if (!(q = debug_problem(D0, d)).empty()) violate("C10:debug", "a load with a device fault succeeded with wrong debug information: " + q);
      if (b.fired) probe("fault-absorbed");
      g_stats.states.insert(fnv(e + d));
    } else {
      if (l.foreign && !xm) violate("C10:foreign", "load failed with a foreign exception: " + l.how);
      if (!b.fired) violate("C10:spurious", "load failed though no fault fired: " + l.how);
      g_stats.states.insert(fnv(l.how));
    }
    EV("faulted load: %s fired=%llu", l.how.c_str(), (unsigned long long)b.fired);
    // the device works again: the same stream gives the exact image
    b.heal();
    in.exceptions(std::ios::goodbit);
    in.clear();
    in.seekg(0);
    Loaded k = try_load(in, dbg);
    if (!k.pe) violate("C10:retry", "retry on the healed stream failed: " + k.how);
    std::string e = lib_everything(*k.pe, false), d = lib_component(*k.pe, "dbg");
    if (e != E0 || d != D0) violate("C10:retry", "retry on the healed stream gives other content: " + diff(E0 + D0, e + d));
    g_stats.ops["retry"]++;
  }
  info.nontrivial = have && fired > 0;
}
static const Exec ex_C10 = {"C10", gen_c10, run_c10, 14000, 1000000, "at least one device fault fired inside a load.",
  "loads of sample and synthetic images through chunked streams with failing, throwing and short reads, seeks and position queries, each retried after healing.", "fault_enumeration", false};
static ExecReg reg_C10(&ex_C10);

// ------------------------------------------------------------------ C11
// Damage to the content, so that the operations also fail for reasons of their own.
std::string damage(std::string b, int64_t how, uint64_t seed) {
  Rng r(seed);
  if (b.empty()) return b;
  switch (how) {
    case 1: b.resize(r.below(b.size() + 1)); break;
    case 2: b.resize(r.below(std::min<size_t>(b.size(), 700) + 1)); break;
    case 3: for (int i = 0; i < 4; ++i) b[r.below(std::min<size_t>(b.size(), 600))] ^= (char)(1 << r.below(8)); break;
    case 4: b[r.below(2)] ^= 1; break;
    case 5: if (b.size() > 64) { uint32_t l = le32(b, 60); size_t o = l + r.below(0x78); if (o + 4 <= b.size()) put32(b, o, (uint32_t)r.next()); } break;
    case 6: for (auto& c : b) c = (char)r.next(); break;
    default: break;
  }
  return b;
}
static void gen_c11(Rng& r, Plan& p, bool th) {
  int n = 2 + (int)r.below(th ? 14 : 7);
  for (int i = 0; i < n; ++i) {
    Op& o = p.add("lend");
    pick_image(r, o);
    o.set("call", r.below(6));
    o.set("chunk", kChunks[r.below(11)]);
    o.set("xm", r.below(8));
    o.set("pos", r.chance(1, 2) ? 0 : (int64_t)r.below(1001));
    if (r.chance(1, 3)) { o.set("dmg", 1 + r.below(6)); o.set("dseed", r.below(100000)); }
    if (r.chance(1, 2)) pick_fault(r, o, o.get("call") == 5);
    if (o.get("call") == 5) { o.set("obuf", kBufs[r.below(8)]); o.set("seekable", r.below(2)); }
    if (r.chance(1, 8)) { o.set("af", r.below(1000)); }
  }
}
static void run_c11(const Plan& p, RunInfo& info) {
  int judged = 0;
  t_alloc.cfg.poison = (unsigned char)(p.seed * 13 + 5);
  for (auto& op : p.ops) {
    if (op.name != "lend") continue;
    int call = (int)op.get("call", 0);
    std::string bytes = image_of(op);
    int64_t xm = op.get("xm", 0);
    if (call == 5) {          // an output stream
      std::unique_ptr<pe_base> pe;
      { SimBuf b(&bytes, nullptr, IoCfg()); std::istream in(&b); Loaded l = try_load(in); if (!l.pe) continue; pe = std::move(l.pe); }
      std::string out;
      IoCfg c;
      c.obuf = (uint32_t)op.get("obuf", 0);
      c.seekable = op.get("seekable", 1) != 0;
      int64_t N = 0;
      { std::string tmp; pe_base copy(*pe); SimBuf b(nullptr, &tmp, c); std::ostream os(&b); try { Lib l; rebuild_pe(copy, os); } catch (const pe_exception&) { continue; } N = b.ops; }
      c.kind = (int)op.get("fk", 0);
      c.count = op.get("cnt", 1);
      c.ops_mask = (unsigned)op.get("mask", 8);
      c.at = op.get("at", 0) * N / 1000;
      if (c.kind == IO_FULL) c.capacity = op.get("at", 0) * (int64_t)bytes.size() / 1000;
      SimBuf b(nullptr, &out, c);
      std::ostream os(&b);
      os.exceptions(mask_of(xm & 3));
      int how = 0;
      std::string what;
      try { Lib l; rebuild_pe(*pe, os); }
      catch (const pe_exception& e) { how = 1; what = e.what(); }
      catch (const SimIoError&) { how = 2; }
      catch (const std::ios_base::failure&) { how = 3; }
      catch (const std::bad_alloc&) { how = 4; }
      catch (...) { violate("C11:foreign", "saving threw a foreign exception"); }
      if (os.exceptions() != mask_of(xm & 3)) violate("C11:out-mask", "saving left another exception mask on the output stream");
      if (how >= 2 && !(xm & 3)) violate("C11:out-foreign", "saving threw a stream exception though the stream asks for none");
      if (!how && os.rdstate() != std::ios::goodbit && (os.rdstate() & mask_of(xm & 3))) violate("C11:out-signal", "the stream failed during the save, asks for exceptions, and none was thrown");
      if (how && !b.fired) violate("C11:out-spurious", "save on a healthy stream failed: " + what);
      ++judged;
      EV("lend out how=%d state=%d", how, (int)os.rdstate());
      continue;
    }
    if (op.has("dmg")) bytes = damage(bytes, op.get("dmg"), (uint64_t)op.get("dseed", 1));
    IoCfg c;
    c.chunk = (uint32_t)op.get("chunk", 0);
    int64_t pos = op.get("pos", 0) * (int64_t)bytes.size() / 1000;
    if (call == 0 && op.get("pos", 0) % 3) pos = 0;   // mostly images are read from the beginning of a stream
    auto invoke = [&](std::istream& in) {
      Lib l;
      switch (call) {
        case 0: { pe_base pe(pe_factory::create_pe(in)); break; }
        case 1: pe_base::get_pe_type(in); break;
        case 2: calculate_checksum(in); break;
        case 3: entropy_calculator::calculate_entropy(in); break;
        case 4: { pe_base pe(in, pe_properties_32(), true); break; }
      }
    };
    int64_t N = 0, A = 0;
    bool clean_ok = true;
    {
      SimBuf b(&bytes, nullptr, c);
      std::istream in(&b);
      in.seekg(pos);
      b.ops = 0;
      t_alloc.count = 0;
      try { invoke(in); } catch (const pe_exception&) { clean_ok = false; } catch (const std::bad_alloc&) { clean_ok = false; }
      N = b.ops;
      A = t_alloc.count;
    }
    SimBuf b(&bytes, nullptr, c);
    std::istream in(&b);
    in.seekg(pos);
    if (op.get("fk", 0)) b.arm((int)op.get("fk"), op.get("at", 0) * N / 1000, op.get("cnt", 1), (unsigned)op.get("mask", 7));
    std::ios::iostate m = mask_of(xm);
    in.exceptions(m);
    int how = 0;
    std::string what;
    if (op.has("af") && A > 0) { t_alloc.count = 0; t_alloc.cfg.fail_at = op.get("af") * A / 1000; t_alloc.cfg.fail_count = 1; }
    uint64_t f0 = t_alloc.failed;
    try { invoke(in); }
    catch (const pe_exception& e) { how = 1; what = e.what(); }
    catch (const SimIoError& e) { how = 2; what = e.what(); }
    catch (const std::ios_base::failure& e) { how = 3; what = e.what(); }
    catch (const std::bad_alloc&) { how = 4; }
    catch (const std::exception& e) { t_alloc.cfg.fail_at = -1; violate("C11:foreign", fmt("call %d let a foreign exception escape: ", call) + e.what()); }
    catch (...) { t_alloc.cfg.fail_at = -1; violate("C11:foreign", fmt("call %d let a foreign exception escape", call)); }
    t_alloc.cfg.fail_at = -1;
    bool af = t_alloc.failed > f0;
    if (af) fault_fired("alloc");
    EV("lend call=%d how=%d fired=%llu", call, how, (unsigned long long)b.fired);
    if ((how == 2 || how == 3) && !(xm)) violate("C11:foreign", fmt("call %d threw a stream exception though the stream asks for none: ", call) + what);
    if ((how == 2 || how == 3) && !b.fired) violate("C11:foreign", fmt("call %d threw a stream exception on a healthy device: ", call) + what);
    if (in.exceptions() != m) violate("C11:mask", fmt("call %d (%s) left exception mask %d instead of %d", call, how ? "failed" : "succeeded", (int)in.exceptions(), (int)m));
    bool seeks_ok = b.fired_cls[1] + b.fired_cls[2] == 0;
    b.heal();
    if (seeks_ok && how != 2 && how != 3) {
      if (!in.good()) violate("C11:state", fmt("call %d (%s) left the stream in state %d", call, how ? "failed" : "succeeded", (int)in.rdstate()));
      in.exceptions(std::ios::goodbit);
      int64_t at = (int64_t)in.tellg();
      if (at != pos) violate("C11:position", fmt("call %d (%s) left the stream at %lld instead of %lld", call, how ? "failed" : "succeeded", (long long)at, (long long)pos));
      if (pos < (int64_t)bytes.size()) {
        int ch = in.get();
        if (ch != (unsigned char)bytes[pos]) violate("C11:usable", fmt("after call %d (%s) the stream does not deliver the byte at its position", call, how ? "failed" : "succeeded"));
      }
      ++judged;
    } else {
      in.exceptions(std::ios::goodbit);
      in.clear();
      in.seekg(pos);
      if (!in.good() || (int64_t)in.tellg() != pos) violate("C11:usable", "the stream is not usable after healing");
    }
    // same call again on the same stream
    in.clear();
    in.seekg(pos);
    bool ok = true;
    try { invoke(in); } catch (const pe_exception&) { ok = false; } catch (const std::bad_alloc&) { ok = false; }
    if (ok != clean_ok) violate("C11:repeat", fmt("call %d on the handed back stream %s, on a fresh one it %s", call, ok ? "succeeds" : "fails", clean_ok ? "succeeds" : "fails"));
    g_stats.ops[fmt("lend:%d", call)]++;
    g_stats.states.insert(fnv(fmt("%d %d %d %lld %d", call, how, (int)m, (long long)pos, (int)b.fired)));
  }
  info.nontrivial = judged > 0;
}
static const Exec ex_C11 = {"C11", gen_c11, run_c11, 40000, 3000000, "at least one lent stream was judged after a call.",
  "create_pe, get_pe_type, calculate_checksum, stream entropy and rebuild_pe on streams lent at any position and with any exception mask, over well-formed and damaged files, with device and allocation faults.", "fault_enumeration", false};
static ExecReg reg_C11(&ex_C11);

// ------------------------------------------------------------------ C12
static void gen_c12(Rng& r, Plan& p, bool th) {
  Op& o = p.add("image");
  pick_image(r, o);
  o.set("grow", r.below(3));
  int n = 2 + (int)r.below(th ? 14 : 6);
  for (int i = 0; i < n; ++i) {
    Op& s = p.add("save");
    s.set("obuf", kBufs[r.below(8)]);
    s.set("seekable", r.below(2));
    s.set("off", r.chance(1, 2) ? 0 : (int64_t)r.below(5000));
    s.set("xm", r.chance(1, 3) ? (int64_t)r.below(4) : 0);
    s.set("chsize", r.chance(5, 6));
    s.set("bnd", r.chance(5, 6));
    if (r.chance(4, 5)) pick_fault(r, s, true);
    if (i == n - 1 && r.chance(1, 6)) s.set("strip", 1);
  }
}
static std::string components_text(const pe_base& pe) {
  std::string r;
  for (auto& s : lib_sections(pe)) r += "sec " + esc(s.name) + fmt(" %x %x %x %zx %016llx\n", s.va, s.vsize, s.chars, stripz(s.data).size(), (unsigned long long)fnv(stripz(s.data)));
  for (auto& c : kComponents) r += "[" + c + "]\n" + lib_component(pe, c);
  return r;
}
static void run_c12(const Plan& p, RunInfo& info) {
  std::unique_ptr<pe_base> pe;
  int fired = 0;
  t_alloc.cfg.poison = (unsigned char)(p.seed * 41 + 3);
  for (auto& op : p.ops) {
    if (op.name == "image") {
      std::string bytes = image_of(op);
      SimBuf b(&bytes, nullptr, IoCfg());
      std::istream in(&b);
      Loaded l = try_load(in);
      if (!l.pe) violate("C12:load", "well-formed image refused: " + l.how);
      pe = std::move(l.pe);
      for (int i = 0; i < op.get("grow", 0); ++i) {
        Lib g;
        section s;
        s.set_name(fmt(".g%d", i));
        s.readable(true).set_raw_data(std::string(100 + 700 * i, (char)('A' + i)));
        pe->add_section(s);
      }
      continue;
    }
    if (op.name != "save" || !pe) continue;
    bool strip = op.get("strip", 0) != 0, chsize = op.get("chsize", 1) != 0, bnd = op.get("bnd", 1) != 0;
    IoCfg c;
    c.obuf = (uint32_t)op.get("obuf", 0);
    c.seekable = op.get("seekable", 1) != 0;
    std::string S0;
    int64_t N = 0;
    bool refused = false;
    {
      pe_base copy(*pe);
      IoCfg plain;
      SimBuf b(nullptr, &S0, plain);
      std::ostream os(&b);
      try { Lib l; rebuild_pe(copy, os, strip, chsize, bnd); } catch (const pe_exception&) { refused = true; }
      os.flush();
      if (!os) violate("C12:clean", "an undisturbed save left the stream failed");
      std::string tmp;
      SimBuf b2(nullptr, &tmp, c);
      std::ostream os2(&b2);
      pe_base copy2(*pe);
      try { Lib l; rebuild_pe(copy2, os2, strip, chsize, bnd); } catch (const pe_exception&) {}
      os2.flush();
      N = b2.ops;
      if (!refused && tmp != S0) violate("C12:buffering", fmt("saving to a %s device with buffer %u gives other bytes", c.seekable ? "seekable" : "unseekable", c.obuf));
    }
    if (refused) { EV("save refused"); continue; }
    std::string before = components_text(*pe);
    std::string prefix((size_t)op.get("off", 0), '#'), out = prefix;
    c.kind = (int)op.get("fk", 0);
    c.count = op.get("cnt", 1);
    c.ops_mask = (unsigned)op.get("mask", 8);
    SimBuf b(nullptr, &out, c);
    std::ostream os(&b);
    if (c.seekable) { b.cfg.kind = 0; os.seekp((std::streamoff)prefix.size()); b.cfg.kind = c.kind; }
    else out.clear(), prefix.clear();
    b.cfg.at = b.ops + op.get("at", 0) * N / 1000;
    if (c.kind == IO_FULL) b.cfg.capacity = op.get("at", 0) * (int64_t)S0.size() / 1000;
    int64_t xm = op.get("xm", 0);
    os.exceptions(mask_of(xm));
    int how = 0;
    try { { Lib l; rebuild_pe(*pe, os, strip, chsize, bnd); } os.flush(); }
    catch (const pe_exception&) { how = 1; }
    catch (const SimIoError&) { how = 2; }
    catch (const std::ios_base::failure&) { how = 3; }
    catch (const std::exception& e) { violate("C12:foreign", std::string("a failed save threw a foreign exception: ") + e.what()); }
    bool visible = how != 0 || !os;
    if (how >= 2 && !xm) violate("C12:foreign", "a failed save threw a stream exception though the stream asks for none");
    if (out.compare(0, prefix.size(), prefix) != 0) violate("C12:before", "the save changed bytes before the position where it started");
    std::string got = out.substr(std::min(prefix.size(), out.size()));
    EV("save how=%d visible=%d fired=%llu got=%zu of %zu", how, (int)visible, (unsigned long long)b.fired, got.size(), S0.size());
    if (!visible && got != S0) violate("C12:silent", fmt("the save reported success but only %zu of %zu bytes are right on the device", (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), S0.size()), S0.begin()).first - got.begin()), S0.size()));
    if (visible && !b.fired) violate("C12:spurious", "a save to a healthy device reported a failure");
    if (got.size() > S0.size() || S0.compare(0, got.size(), got) != 0) violate("C12:prefix", fmt("what reached the device (%zu bytes) is not a leading part of the correct file", got.size()));
    fired += b.fired != 0;
    // the image is not damaged
    if (!strip) {
      std::string now = components_text(*pe);
      if (now != before) violate("C12:damaged", "a failed save changed the image: " + diff(before, now));
    }
    std::string again;
    IoCfg h;
    h.obuf = (uint32_t)((op.get("at", 0) % 3) * 64);
    h.seekable = op.get("at", 0) % 2 == 0;
    SimBuf hb(nullptr, &again, h);
    std::ostream hos(&hb);
    try { Lib l; rebuild_pe(*pe, hos, strip, chsize, bnd); } catch (const pe_exception& e) { violate("C12:retry", std::string("saving again to a healthy device was refused: ") + e.what()); }
    hos.flush();
    if (!hos) violate("C12:retry", "saving again to a healthy device left the stream failed");
    if (again != S0) violate("C12:retry", fmt("saving again to a healthy device gives other bytes than an undisturbed save (sizes %zu and %zu)", again.size(), S0.size()));
    // and on the very stream that failed
    b.heal();
    os.exceptions(std::ios::goodbit);
    os.clear();
    if (c.seekable && !c.obuf) {
      os.seekp((std::streamoff)prefix.size());
      try { Lib l; rebuild_pe(*pe, os, strip, chsize, bnd); } catch (const pe_exception& e) { violate("C12:retry", std::string("saving again to the healed device was refused: ") + e.what()); }
      os.flush();
      if (!os || out.substr(prefix.size()) != S0) violate("C12:retry", "saving again to the healed device gives other bytes than an undisturbed save");
    }
    g_stats.ops["save"]++;
    g_stats.states.insert(fnv(fmt("%d %d %zu", how, (int)visible, got.size()), fnv(S0)));
    if (strip) break;
  }
  info.nontrivial = fired > 0;
}
static const Exec ex_C12 = {"C12", gen_c12, run_c12, 14000, 1000000, "at least one device fault fired inside a save.",
  "saves of loaded and grown images to buffered, unbuffered, unseekable and offset devices that refuse, shorten, throw or fill up, each followed by a save to a healthy device.", "fault_enumeration", false};
static ExecReg reg_C12(&ex_C12);

// ------------------------------------------------------------------ C18
static void gen_c18(Rng& r, Plan& p, bool th) {
  int n = 2 + (int)r.below(th ? 16 : 8);
  for (int i = 0; i < n; ++i) {
    Op& o = p.add("sum");
    pick_image(r, o);
    o.set("cut", r.below(6));
    o.set("cseed", r.below(1000000));
    o.set("chunk", kChunks[r.below(11)]);
    o.set("what", r.below(4));
    o.set("pos", r.chance(1, 3) ? 0 : (int64_t)r.below(1001));
    if (r.chance(1, 2)) pick_fault(r, o, false);
  }
}
static uint32_t ref_checksum(const std::string& b) {
  size_t field = (size_t)le32(b, 60) + 24 + 64;
  uint64_t sum = 0;
  for (size_t i = 0; i < b.size(); i += 2) {
    uint32_t w = (unsigned char)b[i];
    if (i + 1 < b.size()) w |= (uint32_t)(unsigned char)b[i + 1] << 8;
    if (i >= field && i < field + 4) w = 0;
    sum += w;
    sum = (sum & 0xffff) + (sum >> 16);
  }
  sum = (sum & 0xffff) + (sum >> 16);
  return (uint32_t)(sum + b.size());
}
static double ref_entropy(const std::string& b, size_t from) {
  uint64_t n[256] = {0};
  for (size_t i = from; i < b.size(); ++i) ++n[(unsigned char)b[i]];
  double e = 0, t = (double)(b.size() - from);
  for (auto x : n) if (x) e -= x / t * std::log2(x / t);
  return e;
}
static void run_c18(const Plan& p, RunInfo& info) {
  int done = 0;
  t_alloc.cfg.poison = (unsigned char)(p.seed * 17 + 11);
  for (auto& op : p.ops) {
    if (op.name != "sum") continue;
    std::string b = image_of(op);
    Rng r((uint64_t)op.get("cseed", 1));
    uint32_t lf = le32(b, 60);
    int what = (int)op.get("what", 0);
    size_t keep = lf + 24 + 64 + 4;
    switch (op.get("cut", 0)) {      // files of every size, any content after the header
      case 1: b.resize(keep + r.below(b.size() - keep + 1)); break;
      case 2: b.resize(keep + r.below(9)); break;
      case 3: { size_t n = r.below(40); for (size_t i = 0; i < n; ++i) b += (char)r.next(); break; }
      case 4: { for (size_t i = keep; i < b.size(); ++i) b[i] = (char)0xff; b.resize(b.size() - r.below(4)); break; }
      case 5: { for (size_t i = keep; i < b.size(); ++i) if (r.chance(1, 50)) b[i] = (char)r.next(); if (r.chance(1, 3)) b.resize(64 + r.below(b.size() - 63)); break; }
      default: break;
    }
    int64_t pos = op.get("pos", 0) * (int64_t)b.size() / 1000;
    IoCfg c;
    c.chunk = (uint32_t)op.get("chunk", 0);
    uint32_t want_sum = ref_checksum(b);
    double want_ent = pos < (int64_t)b.size() ? ref_entropy(b, (size_t)pos) : -1;
    if (what < 2) {
      auto call = [&](std::istream& in, uint32_t& sum, double& ent) {
        Lib l;
        if (what == 0) sum = calculate_checksum(in);
        else ent = entropy_calculator::calculate_entropy(in);
      };
      auto judge = [&](uint32_t sum, double ent, const char* when) {
        if (what == 0 && sum != want_sum) violate("C18:checksum", fmt("%s: checksum of %zu bytes is %08x, the documented algorithm gives %08x", when, b.size(), sum, want_sum));
        if (what == 1 && !(std::fabs(ent - want_ent) < 1e-9)) violate("C18:entropy", fmt("%s: entropy of %zu bytes from %lld is %.12f instead of %.12f", when, b.size(), (long long)pos, ent, want_ent));
      };
      int64_t N;
      {
        SimBuf sb(&b, nullptr, c);
        std::istream in(&sb);
        in.seekg(pos);
        sb.ops = 0;
        uint32_t sum = 0;
        double ent = 0;
        try {
          call(in, sum, ent);
          if (what == 1 && want_ent < 0) violate("C18:empty", "entropy of no data was reported");
          judge(sum, ent, "healthy stream");
        } catch (const pe_exception& e) {
          if (what == 0 || want_ent >= 0) violate("C18:refused", std::string("healthy stream refused: ") + e.what());
        }
        N = sb.ops;
        if ((int64_t)in.tellg() != pos) violate("C18:position", "the stream was moved");
      }
      if (op.get("fk", 0)) {
        SimBuf sb(&b, nullptr, c);
        std::istream in(&sb);
        in.seekg(pos);
        sb.arm((int)op.get("fk"), op.get("at", 0) * N / 1000, op.get("cnt", 1), (unsigned)op.get("mask", 7));
        uint32_t sum = 0;
        double ent = 0;
        bool ok = true;
        try { call(in, sum, ent); }
        catch (const pe_exception&) { ok = false; }
        catch (const std::exception& e) { violate("C18:foreign", std::string("a stream fault escaped as a foreign exception: ") + e.what()); }
        if (ok && !(what == 1 && want_ent < 0)) judge(sum, ent, sb.fired ? "failing stream" : "healthy stream");
        EV("sum faulted what=%d ok=%d fired=%llu", what, (int)ok, (unsigned long long)sb.fired);
        if (sb.fired) probe(ok ? "fault-absorbed" : "fault-reported");
        // healed
        sb.heal();
        in.clear();
        in.seekg(pos);
        if (what == 0 || want_ent >= 0) {
          try { call(in, sum, ent); } catch (const pe_exception& e) { violate("C18:retry", std::string("refused after healing: ") + e.what()); }
          judge(sum, ent, "healed stream");
        }
      }
    } else {
      // memory blocks, sections and whole images
      std::string blk = b.substr((size_t)pos);
      if (!blk.empty()) {
        double e;
        { Lib l; e = entropy_calculator::calculate_entropy(blk.data(), blk.size()); }
        if (!(std::fabs(e - ref_entropy(blk, 0)) < 1e-9)) violate("C18:entropy", fmt("entropy of a memory block of %zu bytes is %.12f", blk.size(), e));
      }
      std::string img = image_of(op);
      SimBuf sb(&img, nullptr, c);
      std::istream in(&sb);
      Loaded l = try_load(in);
      if (!l.pe) violate("C18:load", "well-formed image refused: " + l.how);
      if (what == 3) {   // mapped sections must not count their virtual tail
        Lib g;
        for (auto& s : static_cast<const pe_base&>(*l.pe).get_image_sections()) s.get_virtual_data(l.pe->get_section_alignment());
      }
      std::string all;
      size_t i = 0;
      RefPe ref(img);
      for (auto& s : l.pe->get_image_sections()) {
        std::string want = ref.secs[i++].effective(ref.falign, ref.salign);
        all += want;
        try {
          double e;
          { Lib g; e = entropy_calculator::calculate_entropy(s); }
          if (want.empty()) violate("C18:empty", "entropy of an empty section was reported");
          if (!(std::fabs(e - ref_entropy(want, 0)) < 1e-9)) violate("C18:entropy", fmt("entropy of section %zu is %.12f instead of %.12f", i - 1, e, ref_entropy(want, 0)));
        } catch (const pe_exception& x) { if (!want.empty()) violate("C18:refused", std::string("entropy of a section refused: ") + x.what()); }
      }
      double e;
      { Lib g; e = entropy_calculator::calculate_entropy(*l.pe); }
      if (!all.empty() && !(std::fabs(e - ref_entropy(all, 0)) < 1e-9)) violate("C18:entropy", fmt("entropy of the image is %.12f instead of %.12f", e, ref_entropy(all, 0)));
    }
    ++done;
    g_stats.ops[fmt("sum:%d", what)]++;
    g_stats.states.insert(fnv(fmt("%x %.9f", want_sum, want_ent)));
  }
  info.nontrivial = done > 0;
}
static const Exec ex_C18 = {"C18", gen_c18, run_c18, 25000, 1000000, "at least one checksum or entropy was compared with the reference computation.",
  "checksums and entropies of files of every size over chunked streams from any position, with device faults and retries; entropies of blocks, sections and images.", "fault_enumeration", false};
static ExecReg reg_C18(&ex_C18);

// ------------------------------------------------------------------ C19
static void gen_c19(Rng& r, Plan& p, bool th) {
  Op& o = p.add("image");
  pick_image(r, o);
  if (r.chance(1, 5)) o.set("kind", 50 + r.below(2));
  int n = 1 + (int)r.below(th ? 8 : 4);
  for (int i = 0; i < n; ++i) {
    Op& e = p.add("grow");
    e.set("seed", (int64_t)(r.next() >> 20));
    e.set("what", r.below(8));
    Op& t = p.add("tear");
    if (r.chance(1, 5)) t.set("strip", 1);
    if (r.chance(1, 5)) t.set("keep", 1);
    t.set("seed", (int64_t)(r.next() >> 20));
    t.set("n", th ? 40 : 14);
    t.set("obuf", kBufs[r.below(8)]);
    t.set("chunk", kChunks[r.below(11)]);
  }
}
static std::string loaded_text(const pe_base& pe) {
  std::string r;
  for (auto& kv : lib_header_raw(pe)) r += kv.first + "=" + kv.second + "\n";
  { Lib l; r += "stub " + fmt("%016llx\n", (unsigned long long)fnv(pe.get_stub_overlay())); r += fmt("full %016llx\n", (unsigned long long)fnv(pe.get_full_headers_data())); }
  for (auto& s : lib_sections(pe)) r += "sec " + esc(s.name) + fmt(" %x %x %x %x %x len=%zx %016llx\n", s.va, s.vsize, s.rawsize, s.rawptr, s.chars, s.data.size(), (unsigned long long)fnv(s.data));
  return r;
}
static void run_c19(const Plan& p, RunInfo& info) {
  std::unique_ptr<pe_base> pe;
  std::string durable, durable_text;
  int torn = 0, accepted = 0;
  t_alloc.cfg.poison = (unsigned char)(p.seed * 23 + 9);
  for (auto& op : p.ops) {
    if (op.name == "image") {
      int k = (int)op.get("kind", 100);
      if (k == 50) { Lib l; pe.reset(new pe_base(pe_properties_32(), 0x1000)); }
      else if (k == 51) { Lib l; pe.reset(new pe_base(pe_properties_64(), 0x1000)); }
      else {
        std::string bytes = image_of(op);
        SimBuf b(&bytes, nullptr, IoCfg());
        std::istream in(&b);
        Loaded l = try_load(in);
        if (!l.pe) violate("C19:load", "well-formed image refused: " + l.how);
        pe = std::move(l.pe);
        durable = bytes;
        durable_text = loaded_text(*pe);
      }
    } else if (op.name == "grow" && pe) {
      Rng r((uint64_t)op.get("seed", 1));
      Lib g;
      if (pe->get_image_sections().size() >= 60) continue;
      section s;
      int w = (int)op.get("what", 0);
      s.set_name(fmt(".t%d", (int)r.below(100)));
      s.readable(true);
      std::string d(r.below(w == 3 ? 9000 : 1500) + 1, '\0');
      for (auto& c : d) c = w == 2 ? (char)0 : (char)r.next();
      if (w == 4) { d = std::string(1, 'x'); s.set_virtual_size(0x3000 + (uint32_t)r.below(0x2000)); }
      s.set_raw_data(d);
      try {
        if (w >= 5) {
          size_t cnt = pe->get_image_sections().size();
          if (!cnt || w == 7) pe->add_section(s);
          if (w == 5 || w == 7) pe->realign_section((uint32_t)pe->get_image_sections().size() - 1);   // leaves an unaligned end of file
          else pe->realign_all_sections();
        }
        else if (w == 1 && !pe->get_image_sections().empty()) { auto& q = pe->get_image_sections().back(); q.get_raw_data() += d; pe->recalculate_section_sizes(q, false); }
        else pe->add_section(s);
      } catch (const pe_exception&) {}
    } else if (op.name == "tear" && pe && !pe->get_image_sections().empty()) {
      std::string S;
      {
        IoCfg c; c.obuf = (uint32_t)op.get("obuf", 0);
        SimBuf b(nullptr, &S, c);
        std::ostream os(&b);
        try { Lib l; rebuild_pe(*pe, os, op.get("strip", 0) != 0, op.get("keep", 0) == 0); } catch (const pe_exception&) { continue; }
        os.flush();
      }
      IoCfg c; c.chunk = (uint32_t)op.get("chunk", 0);
      auto reload = [&](const std::string& f) { SimBuf b(&f, nullptr, c); std::istream in(&b); return try_load(in); };
      Loaded full = reload(S);
      if (!full.pe) violate("C19:complete", "the complete file is refused: " + full.how);
      std::string want = loaded_text(*full.pe);
      Rng r((uint64_t)op.get("seed", 1));
      RefPe ref(S);
      std::vector<size_t> cuts;
      for (auto& s : ref.secs) if (s.rawsize) { for (int d = -1; d <= 1; ++d) { cuts.push_back(s.rawptr + d); cuts.push_back(s.rawptr + s.rawsize + d); } cuts.push_back(s.rawptr + s.rawsize / 2); size_t z = stripz(s.data).size(); cuts.push_back(s.rawptr + z); if (z) cuts.push_back(s.rawptr + z - 1); }
      cuts.push_back(ref.sec_off); cuts.push_back(ref.sec_off + 40 * ref.secs.size()); cuts.push_back(ref.sec_off + 40 * ref.secs.size() - 1); cuts.push_back(64); cuts.push_back(ref.lfanew + 4);
      int n = (int)op.get("n", 14);
      for (int i = 0; i < n; ++i) {
        size_t k = r.chance(2, 3) ? cuts[r.below(cuts.size())] : r.below(S.size() + 1);
        if (k >= S.size()) k = S.size() - 1;
        std::string t = S.substr(0, k);
        fault_fired("crash-during-save");
        Loaded l = reload(t);
        if (l.foreign) violate("C19:foreign", "loading a torn file failed with a foreign exception: " + l.how);
        if (l.pe) {
          ++accepted;
          probe("torn-file-accepted");
          std::string got = loaded_text(*l.pe);
          if (got != want) violate("C19:torn", fmt("a file torn after %zu of %zu bytes loads as an image with other content: ", k, S.size()) + diff(want, got));
        } else probe("torn-file-refused");
        ++torn;
        // recovery: the previous version is still there
        if (!durable.empty() && i == 0) {
          Loaded o = reload(durable);
          if (!o.pe || loaded_text(*o.pe) != durable_text) violate("C19:recovery", "the previous intact file does not load as that version");
        }
      }
      durable = S;
      durable_text = want;
      EV("tear %zu", S.size());
      g_stats.ops["tear"]++;
      g_stats.states.insert(fnv(S));
    }
  }
  info.nontrivial = torn > 0;
  info.what = fmt("%d torn files, %d accepted", torn, accepted);
}
static const Exec ex_C19 = {"C19", gen_c19, run_c19, 40000, 1000000, "at least one torn file was loaded.",
  "edit and save histories in which the save is cut by a crash at header, section and random boundaries; the torn file and the previous version are reloaded.", "fault_enumeration", false};
static ExecReg reg_C19(&ex_C19);

}  // namespace sim
