// Base images: the repository's own sample files, and synthetic PE32/PE32+
// files written byte by byte (no library code) from a seed.
#include "session.h"
#include <fstream>
#include <sstream>
#include <algorithm>
#include <functional>

#ifndef SIM_REPO
#define SIM_REPO "/repo"
#endif

namespace sim {

static const char* kSamples[] = {"image32.exe", "image64.exe", "test_dll_32.dll", "test_dll_64.dll", "bound32.exe", "bound64.exe", "debug_test.exe", "TestApp.exe", "message_table_resource.exe"};
int base_image_count() { return 9; }
bool synth_kind(int k) { return k >= 100; }

static std::string sample(int k) {
  static std::string cache[9];
  if (cache[k].empty()) {
    std::ifstream f(std::string(SIM_REPO "/src/tests/pe_files/") + kSamples[k], std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    cache[k] = ss.str();
    if (cache[k].empty()) throw HarnessError(std::string("sample image missing: ") + kSamples[k]);
  }
  return cache[k];
}

namespace {
struct Sec { std::string name; uint32_t va = 0, vsize = 0, rawsize = 0, ptr = 0, chars = 0; std::string data; };

std::string name_of(Rng& r, int max) {
  std::string s;
  int n = 1 + (int)r.below(max);
  for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyzABCDEF0123456789_"[r.below(43)];
  return s;
}
std::string bytes_of(Rng& r, size_t n, bool nonzero = false) {
  std::string s(n, '\0');
  for (auto& c : s) { c = (char)r.next(); if (nonzero && !c) c = 1; }
  return s;
}

struct Blob {   // contents of one section under construction
  uint32_t va;
  std::string d;
  uint32_t here() const { return va + (uint32_t)d.size(); }
  void align(uint32_t a) { while (d.size() % a) d.push_back('\0'); }
  uint32_t put(const std::string& s) { uint32_t at = here(); d += s; return at; }
  uint32_t str(const std::string& s) { uint32_t at = here(); d += s; d.push_back('\0'); return at; }
  void w16(uint32_t v) { d.push_back((char)v); d.push_back((char)(v >> 8)); }
  void w32(uint32_t v) { w16(v); w16(v >> 16); }
  void w64(uint64_t v) { w32((uint32_t)v); w32((uint32_t)(v >> 32)); }
  void at32(uint32_t rva, uint32_t v) { put32(d, rva - va, v); }
};

std::string debug_payload(Rng& r, uint32_t& type) {
  Blob b{0, ""};
  switch (r.below(8)) {
    case 0: case 1: {   // RSDS
      type = 2;
      b.put("RSDS"); b.put(bytes_of(r, 16)); b.w32((uint32_t)r.next()); b.str(name_of(r, 40) + ".pdb");
      if (r.chance(1, 4)) b.put(bytes_of(r, r.below(6)));
      break;
    }
    case 2: type = 2; b.put("NB10"); b.w32(0); b.w32((uint32_t)r.next()); b.w32((uint32_t)r.next()); b.str(name_of(r, 30) + ".pdb"); break;
    case 3: type = 2; b.put(r.chance(1, 2) ? "NB09" : "NB11"); b.w32((uint32_t)r.next()); b.put(bytes_of(r, 20)); break;
    case 4: case 5: {   // MISC
      type = 4;
      bool uni = r.chance(1, 2);
      std::string t = name_of(r, 30);
      std::string x;
      if (uni) { for (char c : t) { x += c; x += '\0'; } x += std::string(2, '\0'); } else { x = t; x += '\0'; }
      if (r.chance(1, 2)) while (x.size() % 4) x += '\0';
      b.w32(1); b.w32((uint32_t)(12 + x.size())); b.d += (char)uni; b.d += std::string(3, '\0'); b.put(x);
      break;
    }
    case 6: {           // COFF
      type = 1;
      std::string tab, strs(4, '\0');
      int n = 0;
      auto sym = [&](const std::string& nm, uint32_t val, uint32_t sec, uint32_t ty, uint32_t cls, uint32_t aux) {
        std::string s(18, '\0');
        if (nm.size() <= 8) memcpy(&s[0], nm.data(), nm.size());
        else { put32(s, 4, (uint32_t)strs.size()); strs += nm; strs += '\0'; }
        put32(s, 8, val); put16(s, 12, sec); put16(s, 14, ty); s[16] = (char)cls; s[17] = (char)aux;
        tab += s; ++n;
      };
      int k = 1 + (int)r.below(8);
      for (int i = 0; i < k; ++i) {
        int w = (int)r.below(6);
        auto auxes = [&](int k) { for (int j = 0; j < k; ++j, ++n) { std::string a = bytes_of(r, 18); if (r.chance(1, 2)) { static const unsigned char cls[] = {2, 3, 0x67}; a[16] = (char)cls[r.below(3)]; a[17] = 0; put16(a, 12, 1); put16(a, 14, 0x20); if (a[0] == 0) a[0] = 1; } tab += a; } };
        if (w == 4) { int c = 1 + (int)r.below(3); sym(name_of(r, 8), 0, 1, 0, r.chance(1, 2) ? 3 : 0x68, c); auxes(c); }          // section definition with auxiliary records
        else if (w == 5) { int c = 1 + (int)r.below(2); sym(name_of(r, 20), (uint32_t)r.below(0x10000), 1 + (uint32_t)r.below(3), 0x20, 2, c); auxes(c); }   // function definition
        else if (w == 0) { std::string f = name_of(r, 16); sym(".file", 0, 0xfffe, 0, 0x67, 1); f.resize(18); tab += f; ++n; }
        else if (w == 1) sym(name_of(r, 20), (uint32_t)r.below(0x10000), 1 + (uint32_t)r.below(3), 0x20, 2, 0);
        else if (w == 2) sym(name_of(r, 8), (uint32_t)r.below(0x10000), 1, 0, 3, 0);
        else sym(name_of(r, 8), (uint32_t)r.below(0x10000), (uint32_t)r.below(4), (uint32_t)r.below(2), 2 + (uint32_t)r.below(3), 0);
      }
      put32(strs, 0, (uint32_t)strs.size());
      uint32_t gap = r.chance(1, 2) ? 0 : (uint32_t)r.below(20);
      b.w32(n); b.w32(32 + gap); b.w32((uint32_t)r.below(100)); b.w32((uint32_t)r.next());
      for (int i = 0; i < 4; ++i) b.w32((uint32_t)r.next());
      b.put(bytes_of(r, gap)); b.put(tab);
      if (strs.size() > 4 || r.chance(1, 2)) b.put(strs);   // a table without long names needs no string table
      break;
    }
    default: type = 3 + (uint32_t)r.below(9); if (type == 4) type = 3; b.put(bytes_of(r, r.below(60))); break;
  }
  return b.d;
}

// front: bytes put before the directories, so that the last one can be made to end with its section;
// dirs_end tells how long they became
std::string synth(int kind, uint64_t seed, uint32_t front, uint32_t& dirs_end, uint32_t& salign, bool& tight) {
  Rng r(seed ^ 0x5eed5eedull);
  int k = kind - 100;
  bool plus = k & 1;
  bool dbg = (k & 2) || r.chance(1, 3), exc = plus && ((k & 4) || r.chance(1, 3)), net = (k & 8) || r.chance(1, 5), rich = (k & 16) || r.chance(1, 3), ovl = (k & 32) || r.chance(1, 5);
  bool imp = r.chance(2, 3), exp = r.chance(1, 2), rel = r.chance(2, 3), bnd = r.chance(1, 3), bss = r.chance(1, 3), res = r.chance(1, 2);
  bool tls = r.chance(1, 4), cfg = r.chance(1, 4);
  tight = r.chance(1, 3);
  static const uint32_t FA[] = {0x200, 0x200, 0x200, 0x400, 0x1000};
  static const uint32_t SA[] = {0x1000, 0x1000, 0x1000, 0x2000};
  uint32_t fa = FA[r.below(5)], sa = SA[r.below(4)];
  uint32_t w = plus ? 8 : 4;
  uint64_t base = plus ? 0x140000000ull + (r.below(64) << 16) : 0x400000 + (r.below(64) << 16);
  std::vector<std::pair<uint32_t, uint32_t>> dirs(16, {0u, 0u});
  std::vector<Sec> secs;

  // ---- stub
  std::string stub;
  if (r.chance(3, 4)) {
    stub = bytes_of(r, 0x40, true);
    if (rich) {
      uint32_t key = (uint32_t)r.next();
      auto w32 = [&](uint32_t v) { for (int i = 0; i < 4; ++i) stub.push_back((char)(v >> 8 * i)); };
      while (stub.size() % 4) stub.push_back('\0');
      w32(0x536e6144 ^ key); w32(key); w32(key); w32(key);
      int n = (int)r.below(7);
      for (int i = 0; i < n; ++i) { w32(((uint32_t)r.next() & (r.chance(1, 4) ? 0xffff0000u : r.chance(1, 4) ? 0xffffu : r.chance(1, 6) ? 0u : 0xffffffffu)) ^ key); w32((uint32_t)(r.chance(1, 5) ? 0 : r.below(1000)) ^ key); }
      w32(0x68636952); w32(key);
      stub += std::string(r.below(4) * 4, '\0');
    }
    while (stub.size() % 8) stub.push_back('\0');
  }

  uint32_t nsec_est = 7;
  uint32_t lfanew = 64 + (uint32_t)stub.size();
  uint32_t fixed = plus ? 112 : 96;
  uint32_t hdr_need = lfanew + 24 + fixed + 128 + nsec_est * 40;
  std::string bound_blob;
  if (bnd) {
    std::string names;
    Blob b{0, ""};
    int n = 1 + (int)r.below(3);
    std::vector<std::pair<uint32_t, int>> mods;
    std::vector<uint32_t> total(1, 0);
    std::vector<int> refs;
    int ents = 0;
    for (int i = 0; i < n; ++i) { refs.push_back((int)r.below(3)); ents += 1 + refs.back(); }
    uint32_t noff = (ents + 1) * 8;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j <= refs[i]; ++j) {
        b.w32((uint32_t)r.next());
        b.w16(noff + (uint32_t)names.size());
        b.w16(j ? 0 : refs[i]);
        names += name_of(r, 10) + ".dll";
        names.push_back('\0');
      }
    }
    b.w64(0);
    b.d += names;
    bound_blob = b.d;
    hdr_need += (uint32_t)bound_blob.size();
  }
  uint32_t soh = alup(hdr_need, fa);
  uint32_t va = alup(soh, sa);

  auto add = [&](const std::string& n, const std::string& data, uint32_t extra_v, uint32_t chars) {
    Sec s;
    s.name = n; s.va = va; s.data = data; s.chars = chars;
    s.vsize = (uint32_t)data.size() + extra_v;
    if (!s.vsize) s.vsize = 1;
    s.rawsize = alup<uint32_t>((uint32_t)data.size(), fa);
    s.data.resize(s.rawsize, '\0');
    if (r.chance(1, 4)) for (size_t i = data.size(); i < s.data.size(); ++i) s.data[i] = (char)r.next();   // what is behind the virtual size is content, too
    va += alup<uint32_t>(std::max(s.vsize, 1u), sa);
    if (s.rawsize && !extra_v && r.chance(1, 10)) s.vsize = 0;   // old linkers leave it zero: the raw size counts
    secs.push_back(s);
  };
  add(".text", bytes_of(r, 0x40 + r.below(0xa00)), r.chance(1, 2) ? 0 : (uint32_t)r.below(0x1800), 0x60000020);
  uint32_t text_va = secs[0].va, text_n = (uint32_t)secs[0].data.size();
  add(".data", bytes_of(r, 0x80 + r.below(0x300)), r.chance(1, 2) ? (uint32_t)r.below(0x2800) : 0, 0xC0000040);
  uint32_t data_va = secs[1].va, data_n = (uint32_t)secs[1].data.size();
  if (bss) add(".bss", "", 1 + (uint32_t)r.below(0x3000), 0xC0000080);

  // ---- .rdata with the directories
  Blob b{va, ""};
  salign = sa;
  b.put(bytes_of(r, r.below(64)));
  if (front) { Rng q(seed); b.put(bytes_of(q, front)); }
  std::vector<uint32_t> sites;   // places which hold virtual addresses
  auto va_at = [&](uint32_t rva) { sites.push_back(b.here()); if (plus) b.w64(base + rva); else b.w32((uint32_t)(base + rva)); };
  std::vector<std::function<void()>> parts;
  struct Dbg { uint32_t type; std::string payload; uint32_t rva, size; bool inside; uint32_t ent = 0; bool nodata = false; };
  std::vector<Dbg> dbgs;
  if (imp) parts.push_back([&] {
    b.align(8);
    int n = 1 + (int)r.below(3);
    bool orig = r.chance(3, 4);
    std::vector<uint32_t> names, ilt, iat;
    for (int i = 0; i < n; ++i) {
      int nf = 1 + (int)r.below(6);
      std::vector<uint64_t> ent;
      for (int j = 0; j < nf; ++j) {
        if (r.chance(1, 3)) ent.push_back((plus ? 1ull << 63 : 1ull << 31) | r.below(0x10000));
        else { b.align(2); uint32_t at = b.here(); b.w16((uint32_t)r.below(500)); b.str(name_of(r, 14)); ent.push_back(at); }
      }
      names.push_back(b.str(name_of(r, 8) + ".dll"));
      b.align(8);
      ilt.push_back(orig ? b.here() : 0);
      if (orig) { for (auto e : ent) if (plus) b.w64(e); else b.w32((uint32_t)e); if (plus) b.w64(0); else b.w32(0); }
      iat.push_back(b.here());
      for (auto e : ent) { uint64_t v = orig && r.chance(1, 3) ? (r.next() & 0x7fffffff) | 1 : e; if (plus) b.w64(v); else b.w32((uint32_t)v); }
      if (plus) b.w64(0); else b.w32(0);
    }
    dirs[1].first = b.here();
    for (int i = 0; i < n; ++i) { b.w32(ilt[i]); b.w32(r.chance(1, 3) ? (uint32_t)r.next() : 0); b.w32(0); b.w32(names[i]); b.w32(iat[i]); }
    for (int i = 0; i < 5; ++i) b.w32(0);
    dirs[1].second = b.here() - dirs[1].first;
  });
  if (exp) parts.push_back([&] {
    b.align(4);
    uint32_t start = b.here();
    b.d.resize(b.d.size() + 40);
    int nf = 1 + (int)r.below(8);
    std::vector<uint32_t> addr(nf, 0);
    std::vector<std::string> fwd(nf);
    std::vector<std::pair<std::string, int>> names;
    for (int i = 0; i < nf; ++i) {
      if (r.chance(1, 6) && i && i + 1 < nf) continue;
      if (r.chance(1, 4)) fwd[i] = name_of(r, 5) + "." + name_of(r, 6);
      else addr[i] = text_va + (uint32_t)r.below(text_n);
      if (r.chance(2, 3)) names.push_back({name_of(r, r.chance(1, 6) ? 1 : 10) + fmt("%d", i), i});
    }
    if (r.chance(1, 5) && !names.empty()) names.back().first = "z";   // as short as a name can be
    std::sort(names.begin(), names.end());
    std::vector<uint32_t> nrva(names.size());
    std::string lib = name_of(r, 9) + ".dll";
    uint32_t nm = 0, ft = 0, nt = 0, ot = 0;
    std::vector<int> order = {0, 1, 2, 3, 4, 5};   // any order: what comes last may end with the section
    if (r.chance(1, 2)) for (int i = 5; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    for (int o : order) {
      if (o == 0) nm = b.str(lib);
      if (o == 1) for (int i = 0; i < nf; ++i) if (!fwd[i].empty()) addr[i] = b.str(fwd[i]);
      if (o == 2) for (size_t i = 0; i < names.size(); ++i) nrva[i] = b.str(names[i].first);
      if (o > 2 && !(o == 5)) b.align(4);
      if (o == 3) { ft = b.here(); b.d.resize(b.d.size() + 4 * nf); }
      if (o == 4) { nt = b.here(); b.d.resize(b.d.size() + 4 * names.size()); }
      if (o == 5) { b.align(2); ot = b.here(); b.d.resize(b.d.size() + 2 * names.size()); }
    }
    for (int i = 0; i < nf; ++i) b.at32(ft + 4 * i, addr[i]);
    for (size_t i = 0; i < names.size(); ++i) { b.at32(nt + 4 * (uint32_t)i, nrva[i]); put16(b.d, ot - b.va + 2 * (uint32_t)i, names[i].second); }
    uint32_t o = start - b.va;
    put32(b.d, o, 0); put32(b.d, o + 4, (uint32_t)r.next()); put16(b.d, o + 8, (uint32_t)r.below(10)); put32(b.d, o + 12, nm); put32(b.d, o + 16, 1 + (uint32_t)r.below(50));
    put32(b.d, o + 20, nf); put32(b.d, o + 24, (uint32_t)names.size()); put32(b.d, o + 28, ft); put32(b.d, o + 32, nt); put32(b.d, o + 36, ot);
    dirs[0] = {start, b.here() - start};
  });
  if (exc) parts.push_back([&] {
    b.align(4);
    std::vector<uint32_t> uw;
    int n = 1 + (int)r.below(6);
    for (int i = 0; i < n; ++i) {
      uw.push_back(b.here());
      b.put(std::string(1, (char)(1 | r.below(4) << 3))); b.put(bytes_of(r, 3)); b.put(bytes_of(r, 4 * r.below(4)));
    }
    dirs[3].first = b.here();
    for (int i = 0; i < n; ++i) { uint32_t a = text_va + (uint32_t)r.below(text_n); b.w32(a); b.w32(a + (uint32_t)r.below(64)); b.w32(uw[i]); }
    if (r.chance(1, 3)) { for (int i = 0; i < 3; ++i) b.w32(0); dirs[3].second = b.here() - dirs[3].first; }
    else { dirs[3].second = b.here() - dirs[3].first; if (!tight) b.put(bytes_of(r, 12 + r.below(24))); }   // exactly as long as its entries
  });
  if (net) parts.push_back([&] {
    b.align(4);
    dirs[14] = {b.here(), 72};
    b.w32(72); b.w16(2); b.w16((uint32_t)r.below(6)); 
    b.w32(text_va); b.w32((uint32_t)r.below(0x1000)); b.w32((uint32_t)r.below(32)); b.w32((uint32_t)r.next());
    for (int i = 0; i < 6; ++i) { b.w32((uint32_t)r.next()); b.w32((uint32_t)r.below(0x10000)); }
  });
  if (res) parts.push_back([&] {   // type / id / language with shared shapes
    b.align(4);
    uint32_t root = b.here();
    int nt = 1 + (int)r.below(3);
    std::vector<std::string> data;
    auto dirhdr = [&](uint32_t named, uint32_t ids) { b.w32(0); b.w32((uint32_t)r.next()); b.w32(0); b.w16(named); b.w16(ids); };
    bool named0 = r.chance(1, 3);
    dirhdr(named0, nt - named0);
    std::vector<uint32_t> fix1, fix2, fix3;
    uint32_t namefix = 0;
    uint32_t id = 3;
    for (int i = 0; i < nt; ++i) {
      if (i == 0 && named0) { namefix = b.here(); b.w32(0x80000000); } else b.w32(id += 1 + (uint32_t)r.below(8));
      fix1.push_back(b.here()); b.w32(0);
    }
    for (int i = 0; i < nt; ++i) {
      b.at32(fix1[i], 0x80000000 | (b.here() - root));
      int ni = 1 + (int)r.below(3);
      dirhdr(0, ni);
      uint32_t q = 0;
      for (int j = 0; j < ni; ++j) { b.w32(q += 1 + (uint32_t)r.below(5)); fix2.push_back(b.here()); b.w32(0); }
    }
    for (auto f : fix2) { b.at32(f, 0x80000000 | (b.here() - root)); dirhdr(0, 1); b.w32(1033); fix3.push_back(b.here()); b.w32(0); }
    std::vector<uint32_t> des;
    for (auto f : fix3) { b.at32(f, b.here() - root); des.push_back(b.here()); b.w32(0); b.w32(0); b.w32((uint32_t)r.below(2000)); b.w32(0); }
    if (namefix) { b.at32(namefix, 0x80000000 | (b.here() - root)); std::string n = name_of(r, 7); b.w16((uint32_t)n.size()); for (char c : n) b.w16((unsigned char)c); b.align(4); }
    for (auto d : des) {
      std::string x = bytes_of(r, 1 + r.below(90));
      uint32_t at = b.put(x);
      b.at32(d, at); b.at32(d + 4, (uint32_t)x.size());
      if (r.chance(1, 2)) b.align(4);
    }
    dirs[2] = {root, b.here() - root};
  });
  if (tls) parts.push_back([&] {
    b.align(8);
    uint32_t cbs = 0, raw = 0, rawn = 0, idx = data_va + 4 * (uint32_t)r.below(8);
    std::vector<uint32_t> cb;
    for (uint32_t i = 0, n = (uint32_t)r.below(4); i < n; ++i) cb.push_back(text_va + (uint32_t)r.below(text_n));
    bool late = r.chance(1, 2), has_cb = !cb.empty() || r.chance(1, 2);
    uint32_t dir = 0;
    auto put_dir = [&] {
      b.align(w);
      dir = b.here();
      if (rawn || raw) { va_at(raw); va_at(raw + rawn); } else { b.d.resize(b.d.size() + 2 * w); }
      va_at(idx);
      if (has_cb) va_at(cbs); else b.d.resize(b.d.size() + w);
      b.w32((uint32_t)r.below(100)); b.w32((uint32_t)r.below(16) << 20);
    };
    rawn = r.chance(1, 3) ? 0 : 1 + (uint32_t)r.below(60);
    if (late) {
      if (rawn) raw = b.put(bytes_of(r, rawn));
      if (has_cb) { b.align(w); cbs = b.here(); for (auto c : cb) va_at(c); b.d.resize(b.d.size() + w); }
      put_dir();
    } else {   // directory first; callbacks or raw data come last
      uint32_t at = alup(b.here(), w), size = 4 * w + 8;
      bool cbl = r.chance(1, 2);
      if (cbl) { raw = rawn ? at + size : 0; cbs = alup(at + size + rawn, w); } else { cbs = at + size; raw = rawn ? cbs + (has_cb ? w * ((uint32_t)cb.size() + 1) : 0) : 0; }
      put_dir();
      if (cbl && rawn) b.put(bytes_of(r, rawn));
      if (has_cb) { b.align(w); for (auto c : cb) va_at(c); b.d.resize(b.d.size() + w); }
      if (!cbl && rawn) b.put(bytes_of(r, rawn));
    }
    dirs[9] = {dir, 4 * w + 8};
  });
  if (cfg) parts.push_back([&] {
    b.align(8);
    std::vector<uint32_t> seh, lock;
    uint32_t hv = text_va;
    if (!plus) for (uint32_t i = 0, n = (uint32_t)r.below(5); i < n; ++i) seh.push_back(hv += 1 + (uint32_t)r.below(12));
    for (uint32_t i = 0, n = (uint32_t)r.below(4); i < n; ++i) lock.push_back(text_va + (uint32_t)r.below(text_n));
    bool has_lock = !lock.empty() || r.chance(1, 3);
    uint32_t size = plus ? 0x70 : 0x48, at = b.here(), sat = 0, lat = 0;
    bool first = r.chance(1, 2), seh_first = r.chance(1, 2);
    uint32_t ln = has_lock ? w * ((uint32_t)lock.size() + 1) : 0, sn = 4 * (uint32_t)seh.size();
    uint32_t tables = first ? at + size : at;
    if (seh_first) { sat = tables; lat = alup(sat + sn, w); } else { lat = tables; sat = lat + ln; }
    auto put_tables = [&] {
      for (int k = 0; k < 2; ++k) {
        if ((k == 0) == seh_first) for (auto x : seh) b.w32(x);
        else if (has_lock) { b.align(w); for (auto x : lock) va_at(x); b.d.resize(b.d.size() + w); }
      }
    };
    if (!first) { put_tables(); b.align(w); }
    uint32_t dir = b.here();
    auto P = [&](uint64_t v) { if (plus) b.w64(v); else b.w32((uint32_t)v); };
    auto any = [&] { return plus ? r.next() >> r.below(64) : r.next() >> (32 + r.below(32)); };
    b.w32(size); b.w32((uint32_t)r.next()); b.w16((uint32_t)r.below(9)); b.w16((uint32_t)r.below(9)); b.w32((uint32_t)r.next()); b.w32((uint32_t)r.next()); b.w32((uint32_t)r.next());
    P(any()); P(any());
    if (has_lock) va_at(lat); else P(0);
    P(any()); P(any());
    if (plus) { P(any()); b.w32((uint32_t)r.next()); } else { b.w32((uint32_t)r.next()); P(any()); }
    b.w16((uint32_t)r.below(9)); b.w16(0);
    if (r.chance(1, 2)) va_at(data_va); else P(0);
    if (r.chance(1, 2)) va_at(data_va + 8); else P(0);
    if (seh.empty()) P(0); else va_at(sat);
    P(seh.size());
    if (first) put_tables();
    dirs[10] = {dir, r.chance(1, 3) ? 0x40 : size};
  });
  if (dbg) parts.push_back([&] {
    b.align(4);
    int n = 1 + (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      Dbg d;
      d.payload = debug_payload(r, d.type);
      d.size = (uint32_t)d.payload.size();
      d.inside = !ovl || r.chance(1, 2);
      d.rva = 0;
      if (d.inside) { b.align(4); d.rva = b.put(d.payload); if (b.here() == d.rva) b.w32(0); }
      if (r.chance(1, 5)) { Dbg e; static const uint32_t known[] = {1, 2, 4}; e.type = r.chance(1, 3) ? known[r.below(3)] : 10 + (uint32_t)r.below(11); e.rva = 0; e.size = r.chance(1, 3) ? 8 : 0; e.inside = false; e.nodata = true; dbgs.push_back(e); }   // deterministic builds: entries without raw data
      if (r.chance(1, 6)) { Dbg e; static const uint32_t known[] = {1, 2, 4, 3, 12}; e.type = known[r.below(5)]; b.align(4); e.rva = b.here(); b.w32(0); e.size = 0; e.inside = true; dbgs.push_back(e); }   // an entry whose payload is empty
      dbgs.push_back(d);
    }
    b.align(4);
    dirs[6].first = b.here();
    for (auto& d : dbgs) { d.ent = b.here(); b.w32((uint32_t)r.below(4)); b.w32((uint32_t)r.next()); b.w16((uint32_t)r.below(9)); b.w16((uint32_t)r.below(9)); b.w32(d.type); b.w32(d.size); b.w32(d.rva); b.w32(0); }
    dirs[6].second = b.here() - dirs[6].first;
    if (!tight && r.chance(1, 2)) { for (int i = 0; i < 7; ++i) b.w32(0); }
  });
  if (r.chance(1, 2)) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
  for (auto& p : parts) p();
  dirs_end = b.here();
  if (!tight) b.put(bytes_of(r, 1 + r.below(40)));
  uint32_t rd = (uint32_t)secs.size();
  add(".rdata", b.d, r.chance(1, 3) ? (uint32_t)r.below(0x1000) : 0, 0x40000040);
  uint32_t rdata_va = secs[rd].va;
  if (rel) {
    Blob q{va, ""};
    std::vector<uint32_t> pages;
    for (uint32_t p = data_va; p < data_va + data_n; p += 0x1000) pages.push_back(p);
    for (auto p : pages) {
      std::vector<uint32_t> it;
      uint32_t off = (uint32_t)r.below(16);
      int n = (int)r.below(20);
      for (int i = 0; i < n; ++i) {
        if (p + off + w > data_va + data_n || off + w > 0x1000) break;
        it.push_back(off | (plus ? 10 : 3) << 12);
        off += w + (uint32_t)r.below(20);
      }
      if (it.size() % 2) it.push_back(0);
      q.w32(p); q.w32(8 + 2 * (uint32_t)it.size());
      for (auto x : it) q.w16(x);
    }
    std::sort(sites.begin(), sites.end());
    for (size_t i = 0; i < sites.size();) {
      std::vector<uint32_t> it;
      uint32_t p = sites[i] & ~0xfffu;
      for (; i < sites.size() && (sites[i] & ~0xfffu) == p; ++i) it.push_back((sites[i] & 0xfff) | (plus ? 10 : 3) << 12);
      if (it.size() % 2) it.push_back(0);
      q.w32(p); q.w32(8 + 2 * (uint32_t)it.size());
      for (auto x : it) q.w16(x);
    }
    uint32_t pad = tight && r.chance(1, 2) ? sa - (uint32_t)q.d.size() % sa : 0;   // the table ends with its section
    pad &= ~3u;
    dirs[5] = {va + pad, (uint32_t)q.d.size()};
    add(".reloc", std::string(pad, '\0') + q.d, 0, 0x42000040);
  }

  // ---- file
  uint32_t ptr = soh;
  for (auto& s : secs) {
    if (s.rawsize) { s.ptr = ptr; ptr += s.rawsize; }
    else s.ptr = r.chance(1, 2) ? 0 : ptr;
  }
  std::string overlay;
  if (ovl) {
    overlay = bytes_of(r, 1 + r.below(60));
    for (auto& d : dbgs) if (!d.inside && !d.nodata) { put32(secs[rd].data, d.ent - rdata_va + 24, ptr + (uint32_t)overlay.size()); overlay += d.payload + std::string(1, '\x7f'); }
  }
  for (auto& d : dbgs) if (d.inside) put32(secs[rd].data, d.ent - rdata_va + 24, secs[rd].ptr + d.rva - rdata_va);
  uint32_t bnd_at = lfanew + 24 + fixed + 128 + (uint32_t)secs.size() * 40;
  if (bnd) dirs[11] = {bnd_at, (uint32_t)bound_blob.size()};

  std::string f(64, '\0');
  f[0] = 'M'; f[1] = 'Z';
  for (int i = 2; i < 28; ++i) f[i] = (char)r.next();
  put32(f, 60, lfanew);
  f += stub;
  Blob h{0, ""};
  h.w32(0x4550); h.w16(plus ? 0x8664 : 0x14c); h.w16((uint32_t)secs.size()); h.w32((uint32_t)r.next()); h.w32(0); h.w32(0); h.w16(fixed + 128); 
  h.w16(2 | (plus ? 0x20 : 0x100) | (rel ? 0 : 1) | (exp ? 0x2000 : 0));
  h.w16(plus ? 0x20b : 0x10b); h.w16(0x0a0e); h.w32(secs[0].rawsize); h.w32(0x600); h.w32(0); h.w32(text_va + (uint32_t)r.below(16)); h.w32(text_va);
  if (!plus) { h.w32(data_va); h.w32((uint32_t)base); } else h.w64(base);
  h.w32(sa); h.w32(fa); h.w16(6); h.w16((uint32_t)r.below(3)); h.w16((uint32_t)r.below(9)); h.w16(0); h.w16(6); h.w16(0); h.w32(0); h.w32(va); h.w32(soh); h.w32((uint32_t)r.next());
  h.w16(2 + (uint32_t)r.below(2)); h.w16(0x8140 & (rel ? 0xffff : ~0x40));
  for (int i = 0; i < 4; ++i) { uint64_t v = 0x1000 << r.below(8); if (plus) h.w64(v); else h.w32((uint32_t)v); }
  h.w32(0); h.w32(16);
  for (auto& d : dirs) { h.w32(d.first); h.w32(d.second); }
  for (auto& s : secs) {
    std::string n = s.name;
    n.resize(8, '\0');
    h.put(n); h.w32(s.vsize); h.w32(s.va); h.w32(s.rawsize); h.w32(s.ptr); h.w32(0); h.w32(0); h.w32(0); h.w32(s.chars);
  }
  f += h.d;
  if (bnd) { f.resize(bnd_at, '\0'); f += bound_blob; }
  f.resize(soh, '\0');
  for (auto& s : secs) if (s.rawsize) { f.resize(s.ptr, '\0'); f += s.data; }
  f += overlay;
  return f;
}
}  // namespace

std::string base_image(int kind, uint64_t seed) {
  if (kind >= 0 && kind < 9) return sample(kind);
  uint32_t end, sa;
  bool tight;
  std::string b = synth(kind, seed, 0, end, sa, tight);
  if (!tight) return b;
  uint32_t front = 0;
  for (int i = 0; i < 64 && end % sa; ++i) {   // alignment inside makes it take more than one try
    front += i ? 1 : sa - end % sa > 16 ? sa - end % sa - 16 : 0;
    b = synth(kind, seed, front, end, sa, tight);
  }
  return b;
}

}  // namespace sim
