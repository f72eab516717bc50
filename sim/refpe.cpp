// Independent PE decoder over raw file bytes. Written from the PE format; shares
// no code with the library. Used as an oracle for what a saved file says.
#include "facts.h"
#include <algorithm>

namespace sim {

static std::string u(uint64_t v) { return fmt("%llu", (unsigned long long)v); }

KV parse_nt(const std::string& nt, uint32_t ndirs_max) {
  KV h;
  if (nt.size() < 24 + 96) return h;
  bool plus = le16(nt, 24) == 0x20b;
  h["signature"] = u(le32(nt, 0));
  h["machine"] = u(le16(nt, 4));
  h["nsections"] = u(le16(nt, 6));
  h["timestamp"] = u(le32(nt, 8));
  h["symtab"] = u(le32(nt, 12));
  h["nsyms"] = u(le32(nt, 16));
  h["size_of_opt"] = u(le16(nt, 20));
  h["characteristics"] = u(le16(nt, 22));
  size_t o = 24;
  h["magic"] = u(le16(nt, o));
  h["linker"] = u(le16(nt, o + 2));
  h["size_of_code"] = u(le32(nt, o + 4));
  h["size_of_init"] = u(le32(nt, o + 8));
  h["size_of_uninit"] = u(le32(nt, o + 12));
  h["ep"] = u(le32(nt, o + 16));
  h["base_of_code"] = u(le32(nt, o + 20));
  if (!plus) { h["base_of_data"] = u(le32(nt, o + 24)); h["image_base"] = u(le32(nt, o + 28)); }
  else h["image_base"] = u(le64(nt, o + 24));
  h["section_alignment"] = u(le32(nt, o + 32));
  h["file_alignment"] = u(le32(nt, o + 36));
  h["os_major"] = u(le16(nt, o + 40));
  h["os_minor"] = u(le16(nt, o + 42));
  h["image_ver"] = u(le32(nt, o + 44));
  h["sub_major"] = u(le16(nt, o + 48));
  h["sub_minor"] = u(le16(nt, o + 50));
  h["win32ver"] = u(le32(nt, o + 52));
  h["size_of_image"] = u(le32(nt, o + 56));
  h["size_of_headers"] = u(le32(nt, o + 60));
  h["checksum"] = u(le32(nt, o + 64));
  h["subsystem"] = u(le16(nt, o + 68));
  h["dllchar"] = u(le16(nt, o + 70));
  size_t p = o + 72, w = plus ? 8 : 4;
  const char* n[] = {"stack_reserve", "stack_commit", "heap_reserve", "heap_commit"};
  for (int i = 0; i < 4; ++i, p += w) h[n[i]] = u(plus ? le64(nt, p) : le32(nt, p));
  h["loader_flags"] = u(le32(nt, p));
  uint32_t nd = le32(nt, p + 4);
  h["ndirs"] = u(nd);
  p += 8;
  for (uint32_t i = 0; i < nd && i < ndirs_max && p + 8 <= nt.size(); ++i, p += 8)
    h[fmt("dir%02u", i)] = fmt("%x+%x", le32(nt, p), le32(nt, p + 4));
  return h;
}

std::string RefSec::effective(uint32_t falign, uint32_t salign) const {
  std::string d = data;
  uint64_t vs = alup<uint64_t>(vsize ? vsize : rawsize, salign);
  (void)falign;
  if (d.size() > vs) d.resize(vs);
  return d;
}

RefPe::RefPe(const std::string& b, bool from_mem) : bytes(b) {
  auto bad = [&](const char* e) { err = e; };
  if (b.size() < 64) { bad("short DOS header"); return; }
  if (le16(b, 0) != 0x5a4d) { bad("no MZ"); return; }
  lfanew = le32(b, 60);
  nt_off = lfanew;
  if ((uint64_t)nt_off + 24 + 96 > b.size()) { bad("NT headers outside file"); return; }
  if (le32(b, nt_off) != 0x4550) { bad("no PE signature"); return; }
  uint32_t magic = le16(b, nt_off + 24);
  if (magic != 0x10b && magic != 0x20b) { bad("bad magic"); return; }
  plus = magic == 0x20b;
  opt_off = nt_off + 24;
  uint32_t fixed = plus ? 112 : 96;
  if ((uint64_t)opt_off + fixed > b.size()) { bad("optional header outside file"); return; }
  ndirs = std::min<uint32_t>(16, le32(b, opt_off + fixed - 4));
  nt_size = 24 + fixed + ndirs * 8;
  if ((uint64_t)nt_off + nt_size > b.size()) { bad("data directories outside file"); return; }
  std::string nt = b.substr(nt_off, nt_size);
  hdr = parse_nt(nt);
  for (uint32_t i = 0; i < ndirs; ++i)
    dirs.push_back({le32(b, opt_off + fixed + i * 8), le32(b, opt_off + fixed + i * 8 + 4)});
  stub = lfanew > 64 ? b.substr(64, lfanew - 64) : "";
  salign = le32(b, opt_off + 32);
  falign = le32(b, opt_off + 36);
  size_of_image = le32(b, opt_off + 56);
  size_of_headers = le32(b, opt_off + 60);
  image_base = plus ? le64(b, opt_off + 24) : le32(b, opt_off + 28);
  sec_off = opt_off + le16(b, nt_off + 20);
  uint32_t n = le16(b, nt_off + 6);
  for (uint32_t i = 0; i < n; ++i) {
    uint64_t o = sec_off + (uint64_t)i * 40;
    if (o + 40 > b.size()) { bad("section header outside file"); return; }
    RefSec s;
    s.header = b.substr(o, 40);
    s.raw_name = s.header.substr(0, 8);
    s.name = s.raw_name.c_str();
    s.vsize = le32(s.header, 8);
    s.va = le32(s.header, 12);
    s.rawsize = le32(s.header, 16);
    s.rawptr = le32(s.header, 20);
    s.chars = le32(s.header, 36);
    uint64_t at = from_mem ? s.va : s.rawptr;
    if (falign && !from_mem) at = at / falign * falign;
    uint64_t take = s.rawsize;
    // what a loader maps: no more than the virtual size when the raw data is larger
    if (falign && salign && take && alup<uint64_t>(take, falign) > alup<uint64_t>(s.vsize ? s.vsize : take, salign)) take = s.vsize;
    if (take) {
      if (at + take > b.size()) { bad("section data outside file"); return; }
      s.data = b.substr(at, take);
    }
    secs.push_back(s);
  }
  ok = true;
}

const RefSec* RefPe::sec_of(uint64_t rva) const {
  for (auto& s : secs) {
    uint64_t vs = alup<uint64_t>(s.vsize ? s.vsize : s.rawsize, salign);
    if (rva >= s.va && rva < s.va + vs) return &s;
  }
  return nullptr;
}
static uint64_t hdr_len(const RefPe& p) {
  uint64_t n = std::min<uint64_t>(p.size_of_headers, p.bytes.size());
  for (auto& s : p.secs)
    if (s.rawsize) { n = std::min<uint64_t>(p.size_of_headers, s.rawptr); break; }
  return n;
}
uint64_t RefPe::avail(uint64_t rva) const {
  uint64_t h = hdr_len(*this);
  if (rva < h) return h - rva;
  const RefSec* s = sec_of(rva);
  return s ? s->va + alup<uint64_t>(s->vsize ? s->vsize : s->rawsize, salign) - rva : 0;
}
bool RefPe::rd(uint64_t rva, uint64_t n, std::string& out) const {
  uint64_t h = hdr_len(*this);
  out.clear();
  if (rva < h) {
    if (rva + n > h) return false;
    out = bytes.substr(rva, n);
    return true;
  }
  const RefSec* s = sec_of(rva);
  if (!s) return false;
  uint64_t vs = alup<uint64_t>(s->vsize ? s->vsize : s->rawsize, salign), off = rva - s->va;
  if (off + n > vs) return false;
  if (off < s->data.size()) out = s->data.substr(off, n);
  out.resize(n, '\0');
  return true;
}
bool RefPe::u16(uint64_t rva, uint32_t& v) const { std::string t; if (!rd(rva, 2, t)) return false; v = le16(t, 0); return true; }
bool RefPe::u32(uint64_t rva, uint32_t& v) const { std::string t; if (!rd(rva, 4, t)) return false; v = le32(t, 0); return true; }
bool RefPe::u64(uint64_t rva, uint64_t& v) const { std::string t; if (!rd(rva, 8, t)) return false; v = le64(t, 0); return true; }
bool RefPe::cstr(uint64_t rva, std::string& s) const {
  uint64_t n = avail(rva);
  s.clear();
  std::string t;
  if (n < 2) return false;
  for (uint64_t i = 0; i < n; i += 64) {
    uint64_t k = std::min<uint64_t>(64, n - i);
    if (!rd(rva + i, k, t)) return false;
    size_t z = t.find('\0');
    if (z != std::string::npos) { s += t.substr(0, z); return true; }
    s += t;
  }
  return false;
}

#define NEED(c, what) do { if (!(c)) return std::string("error: ") + (what); } while (0)

std::string RefPe::imports() const {
  std::vector<ImpLib> v;
  uint64_t p = dir(1).first;
  if (!p) return text(v);
  for (;; p += 20) {
    std::string d;
    NEED(rd(p, 20, d), "descriptor");
    if (!le32(d, 12)) break;
    ImpLib l;
    NEED(cstr(le32(d, 12), l.name), "library name");
    l.ts = le32(d, 4);
    l.orig_rva = le32(d, 0);
    l.iat_rva = le32(d, 16);
    l.has_orig = l.orig_rva != 0;
    uint64_t a = l.iat_rva, o = l.orig_rva ? l.orig_rva : a, w = psize();
    for (;; a += w, o += w) {
      uint64_t x, y;
      NEED(ptr(a, x), "iat");
      if (!x) break;
      NEED(ptr(o, y), "lookup");
      if (!y) break;
      ImpFunc f;
      f.iat = x;
      if (y >> (plus ? 63 : 31)) f.ord = (uint32_t)(y & 0xffff);
      else {
        f.named = true;
        NEED(u16(y, f.hint), "hint");
        NEED(cstr(y + 2, f.name), "function name");
      }
      l.f.push_back(f);
      NEED(l.f.size() < 200000, "endless");
    }
    v.push_back(l);
    NEED(v.size() < 20000, "endless");
  }
  return text(v);
}

std::string RefPe::import_problems() const {
  uint64_t p = dir(1).first;
  if (!p) return "";
  for (;; p += 20) {
    std::string d;
    if (!rd(p, 20, d)) return "descriptor outside image";
    if (!le32(d, 12)) {
      if (le32(d, 0) || le32(d, 16)) return "terminating descriptor not zero";
      break;
    }
    if (!sec_of(le32(d, 12))) return "library name outside sections";
    if (!sec_of(le32(d, 16))) return "address table outside sections";
    if (le32(d, 0) && !sec_of(le32(d, 0))) return "lookup table outside sections";
    // loader view: lookup and address table must list the same imports
    if (le32(d, 0) && le32(d, 4) == 0) {
      uint64_t n1 = 0, n2 = 0, x;
      while (ptr(le32(d, 0) + n1 * psize(), x) && x) ++n1;
      while (ptr(le32(d, 16) + n2 * psize(), x) && x) ++n2;
      if (n1 != n2) return fmt("lookup table has %llu entries, address table %llu", (unsigned long long)n1, (unsigned long long)n2);
    }
  }
  return "";
}

std::string RefPe::exports() const {
  ExpInfo e;
  auto d = dir(0);
  if (!d.first) return text(e);
  std::string h;
  NEED(rd(d.first, 40, h), "directory");
  e.present = true;
  e.chars = le32(h, 0); e.ts = le32(h, 4); e.major = le16(h, 8); e.minor = le16(h, 10);
  NEED(cstr(le32(h, 12), e.name), "name");
  e.base = le32(h, 16); e.nfuncs = le32(h, 20); e.nnames = le32(h, 24);
  uint64_t af = le32(h, 28), an = le32(h, 32), ao = le32(h, 36);
  if (!e.nfuncs) return text(e);
  NEED(e.nfuncs <= 0x20000 && e.nnames <= e.nfuncs, "counts");
  NEED(avail(af) >= e.nfuncs * 4ull, "functions");
  if (e.nnames) NEED(avail(an) >= e.nnames * 4ull && avail(ao) >= e.nnames * 2ull, "names");
  std::map<uint32_t, std::string> names;
  for (uint32_t i = 0; i < e.nnames; ++i) {
    uint32_t o, r;
    NEED(u16(ao + i * 2, o) && u32(an + i * 4, r), "name entry");
    std::string s;
    NEED(cstr(r, s), "function name");
    names.insert({o, s});
  }
  for (uint32_t i = 0; i < e.nfuncs; ++i) {
    uint32_t r;
    NEED(u32(af + i * 4, r), "function");
    if (!r) continue;
    ExpFunc f;
    f.ord = i + e.base;
    NEED(f.ord <= 0xffff, "ordinal");
    f.rva = r;
    auto n = names.find(i);
    if (n != names.end()) { f.named = true; f.name = n->second; }
    if (r >= (uint64_t)d.first + 40 && r < (uint64_t)d.first + d.second) { f.fwd = true; NEED(cstr(r, f.fwd_name), "forwarder"); }
    e.f.push_back(f);
  }
  return text(e);
}

// Lookup by name and by ordinal, the way a program loader does it.
std::string RefPe::export_lookup_problems() const {
  auto d = dir(0);
  if (!d.first) return "";
  std::string h;
  if (!rd(d.first, 40, h)) return "directory outside image";
  uint32_t base = le32(h, 16), nf = le32(h, 20), nn = le32(h, 24);
  uint64_t af = le32(h, 28), an = le32(h, 32), ao = le32(h, 36);
  std::vector<std::string> names;
  for (uint32_t i = 0; i < nn; ++i) {
    uint32_t o, r;
    std::string s;
    if (!u16(ao + i * 2, o) || !u32(an + i * 4, r) || !cstr(r, s)) return "name table entry outside image";
    if (o >= nf) return fmt("name ordinal %u outside the function table of %u", o, nf);
    names.push_back(s);
  }
  for (size_t i = 1; i < names.size(); ++i)
    if (!(names[i - 1] < names[i])) return "name table not sorted: " + esc(names[i - 1]) + " before " + esc(names[i]);
  for (uint32_t i = 0; i < nf; ++i) { uint32_t r; if (!u32(af + i * 4, r)) return "function table outside image"; }
  // every function the tables list is found by binary search over the names and by ordinal
  for (size_t i = 0; i < names.size(); ++i) {
    size_t lo = 0, hi = names.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (names[m] < names[i]) lo = m + 1; else hi = m; }
    if (lo != i) return "binary search misses " + esc(names[i]);
  }
  (void)base;
  return "";
}

std::string RefPe::relocs() const {
  std::vector<RelTable> v;
  auto d = dir(5);
  if (!d.first || (le16(bytes, nt_off + 22) & 1)) return text(v);
  uint64_t p = d.first, end = p + d.second;
  while (p < end) {
    std::string b;
    NEED(rd(p, 8, b), "block");
    uint32_t sz = le32(b, 4);
    if (!sz) break;
    NEED(sz % 2 == 0 && sz >= 8, "block size");
    RelTable t;
    t.rva = le32(b, 0);
    for (uint32_t i = 8; i < sz; i += 2) {
      uint32_t x;
      NEED(u16(p + i, x), "entry");
      if (x >> 12) t.items.push_back((uint16_t)x);
    }
    v.push_back(t);
    p += sz;
  }
  return text(v);
}

std::string RefPe::tls() const {
  TlsFacts t;
  auto d = dir(9);
  if (!d.first) return text(t);
  t.present = true;
  uint64_t s, e, ix, cb, w = psize(), p = d.first;
  NEED(ptr(p, s) && ptr(p + w, e) && ptr(p + 2 * w, ix) && ptr(p + 3 * w, cb), "directory");
  NEED(u32(p + 4 * w, t.zero) && u32(p + 4 * w + 4, t.chars), "directory");
  auto rva = [&](uint64_t va) { return va ? (uint32_t)(va - image_base) : 0u; };
  t.start = rva(s); t.end = rva(e); t.index = rva(ix); t.cbs = rva(cb);
  if (s && e > s) NEED(e - s < 0x10000000 && rd(t.start, e - s, t.raw), "raw data");
  if (cb)
    for (uint64_t q = t.cbs;; q += w) {
      uint64_t x;
      NEED(ptr(q, x), "callback");
      if (!x) break;
      t.cb.push_back((uint32_t)(x - image_base));
    }
  return text(t);
}

std::string RefPe::config() const {
  CfgFacts c;
  auto d = dir(10);
  if (!d.first) return text(c);
  c.present = true;
  uint64_t p = d.first;
  uint32_t size, ver;
  NEED(u32(p, size), "size");
  auto U32 = [&](uint64_t o) { uint32_t v = 0; u32(p + o, v); return v; };
  auto P = [&](uint64_t o) { uint64_t v = 0; ptr(p + o, v); return v; };
  NEED(avail(p) >= (plus ? 0x70u : 0x48u), "directory");
  NEED(size >= (plus ? 0x70u : 0x48u), "old directory");
  c.ts = U32(4); ver = U32(8); c.major = ver & 0xffff; c.minor = ver >> 16;
  c.gfc = U32(12); c.gfs = U32(16); c.cst = U32(20);
  if (!plus) {
    c.dcf = P(24); c.dct = P(28); c.lpt = P(32); c.mas = P(36); c.vmt = P(40); c.phf = U32(44); c.pam = P(48);
    c.csd = U32(52) & 0xffff; c.edit = P(56); c.cookie = P(60); c.seht = P(64); c.sehc = P(68);
  } else {
    c.dcf = P(24); c.dct = P(32); c.lpt = P(40); c.mas = P(48); c.vmt = P(56); c.pam = P(64); c.phf = U32(72);
    c.csd = U32(76) & 0xffff; c.edit = P(80); c.cookie = P(88); c.seht = P(96); c.sehc = P(104);
  }
  if (c.lpt) {
    for (uint64_t q = c.lpt - image_base;; q += psize()) {
      uint64_t x;
      NEED(ptr(q, x), "lock prefix");
      if (!x) break;
      c.lock.push_back((uint32_t)(x - image_base));
    }
  }
  if (c.sehc && c.seht) {
    for (uint64_t i = 0; i < c.sehc; ++i) {
      uint32_t x;
      NEED(u32(c.seht - image_base + i * 4, x), "handler");
      c.seh.push_back(x);
    }
  }
  return text(c);
}

std::string RefPe::bound() const {
  std::vector<BndMod> v;
  auto d = dir(11);
  if (!d.first) return text(v);
  uint64_t p = d.first;
  for (;;) {
    std::string b;
    NEED(rd(p, 8, b), "descriptor");
    if (!le16(b, 4)) break;
    BndMod m;
    m.ts = le32(b, 0);
    NEED(cstr(d.first + le16(b, 4), m.name), "module name");
    uint32_t n = le16(b, 6);
    p += 8;
    for (uint32_t i = 0; i < n; ++i, p += 8) {
      NEED(rd(p, 8, b), "reference");
      BndRef r;
      r.ts = le32(b, 0);
      NEED(cstr(d.first + le16(b, 4), r.name), "reference name");
      m.refs.push_back(r);
    }
    v.push_back(m);
  }
  return text(v);
}

static bool res_walk(const RefPe& pe, uint64_t root, uint64_t off, int depth, ResKey key, ResMap& m, std::string& err, std::set<uint64_t>& seen) {
  std::string h;
  if (!seen.insert(off).second) { err = "cycle"; return false; }
  if (!pe.rd(root + off, 16, h)) { err = "directory"; return false; }
  uint32_t n = le16(h, 12) + le16(h, 14);
  for (uint32_t i = 0; i < n; ++i) {
    std::string e;
    if (!pe.rd(root + off + 16 + i * 8, 8, e)) { err = "entry"; return false; }
    uint32_t nm = le32(e, 0), ch = le32(e, 4);
    ResKey k = key;
    if (depth < 3) {
      if (nm >> 31) {
        uint32_t len;
        std::string s;
        if (!pe.u16(root + (nm & 0x7fffffff), len) || !pe.rd(root + (nm & 0x7fffffff) + 2, len * 2ull, s)) { err = "name"; return false; }
        k.named[depth] = true;
        for (uint32_t j = 0; j < len; ++j) k.name[depth] += (char16_t)le16(s, j * 2);
      } else k.id[depth] = nm;
    }
    if (ch >> 31) {
      if (depth >= 8) { err = "depth"; return false; }
      if (!res_walk(pe, root, ch & 0x7fffffff, depth + 1, k, m, err, seen)) return false;
    } else {
      std::string de;
      ResLeaf l;
      if (!pe.rd(root + ch, 16, de)) { err = "data entry"; return false; }
      l.codepage = le32(de, 8);
      if (le32(de, 4) && !pe.rd(le32(de, 0), le32(de, 4), l.data)) { err = "data"; return false; }   // no data, no place
      if (!m.insert({k, l}).second) { err = "duplicate entry " + k.text(); return false; }
    }
  }
  return true;
}
bool RefPe::resource_map(ResMap& m, std::string& e) const {
  auto d = dir(2);
  if (!d.first) return true;
  std::set<uint64_t> seen;
  return res_walk(*this, d.first, 0, 0, ResKey(), m, e, seen);
}
static void res_headers(const RefPe& pe, uint64_t root, uint64_t off, int depth, const std::string& path, std::map<std::string, std::string>& m) {
  std::string h;
  if (depth > 8 || !pe.rd(root + off, 16, h)) return;
  m[path] = fmt("%x %x %u.%u", le32(h, 0), le32(h, 4), le16(h, 8), le16(h, 10));
  for (uint32_t i = 0, n = le16(h, 12) + le16(h, 14); i < n; ++i) {
    std::string e;
    if (!pe.rd(root + off + 16 + i * 8, 8, e)) return;
    uint32_t nm = le32(e, 0), ch = le32(e, 4);
    if (!(ch >> 31)) continue;
    std::string k = fmt("/%u", nm);
    if (nm >> 31) {
      uint32_t len;
      std::string s;
      if (!pe.u16(root + (nm & 0x7fffffff), len) || !pe.rd(root + (nm & 0x7fffffff) + 2, len * 2ull, s)) return;
      k = "/n";
      for (uint32_t j = 0; j < len; ++j) k += fmt("%x.", le16(s, j * 2));
    }
    res_headers(pe, root, ch & 0x7fffffff, depth + 1, path + k, m);
  }
}
std::string RefPe::resource_headers() const {
  std::map<std::string, std::string> m;
  if (dir(2).first) res_headers(*this, dir(2).first, 0, 0, "", m);
  std::string r;
  for (auto& kv : m) r += kv.first + " " + kv.second + "\n";
  return r;
}
std::string RefPe::resources() const {
  ResMap m;
  std::string e;
  if (!dir(2).first) return "absent";
  if (!resource_map(m, e)) return "error: " + e;
  return text(m);
}
static std::string res_order(const RefPe& pe, uint64_t root, uint64_t off, int depth) {
  std::string h;
  if (depth > 8 || !pe.rd(root + off, 16, h)) return "directory outside image";
  uint32_t nn = le16(h, 12), ni = le16(h, 14);
  uint32_t last_id = 0;
  std::u16string last_name;
  bool plain = false;   // the order of names with surrogates depends on the width of wchar_t
  for (uint32_t i = 0; i < nn + ni; ++i) {
    std::string e;
    if (!pe.rd(root + off + 16 + i * 8, 8, e)) return "entry outside image";
    bool named = le32(e, 0) >> 31;
    if (named != (i < nn)) return fmt("entry %u: named entries must precede id entries", i);
    if (named) {
      std::string l, c;
      uint64_t at = root + (le32(e, 0) & 0x7fffffff);
      if (!pe.rd(at, 2, l) || !pe.rd(at + 2, le16(l, 0) * 2u, c)) return "entry name outside image";
      std::u16string n;
      bool ok = true;
      for (size_t k = 0; k + 1 < c.size(); k += 2) { n += (char16_t)le16(c, k); ok = ok && (n.back() & 0xf800) != 0xd800; }
      if (i && ok && plain && n < last_name) return fmt("named entries not ascending at depth %d: entry %u", depth, i);
      last_name = n;
      plain = ok;
    } else {
      if (i > nn && le32(e, 0) <= last_id) return fmt("id entries not ascending at depth %d: %u after %u", depth, le32(e, 0), last_id);
      last_id = le32(e, 0);
    }
    if (le32(e, 4) >> 31) {
      std::string r = res_order(pe, root, le32(e, 4) & 0x7fffffff, depth + 1);
      if (!r.empty()) return r;
    } else {
      std::string de;
      if (!pe.rd(root + le32(e, 4), 16, de)) return "data entry outside image";
      const RefSec* s = pe.sec_of(le32(de, 0));
      if (le32(de, 4) && (!s || (uint64_t)le32(de, 0) - s->va + le32(de, 4) > std::max<uint64_t>(s->data.size(), alup<uint64_t>(s->vsize, pe.salign)))) return fmt("data block %x+%x not inside a section", le32(de, 0), le32(de, 4));
    }
  }
  return "";
}
std::string RefPe::resource_order_problems() const {
  return dir(2).first ? res_order(*this, dir(2).first, 0, 0) : "";
}

static std::string cstrn(const std::string& d, size_t at) { return at < d.size() ? std::string(d.c_str() + at) : ""; }

std::string dbg_entry_text(uint32_t chars, uint32_t ts, uint32_t maj, uint32_t min, uint32_t type, uint32_t size, uint32_t rva, uint32_t ptr) {
  return fmt("dbg type=%u chars=%x ts=%x ver=%u.%u size=%x rva=%x ptr=%x", type, chars, ts, maj, min, size, rva, ptr);
}

std::string RefPe::debug() const {
  auto d = dir(6);
  if (!d.first) return "";
  std::string r;
  std::map<uint32_t, std::string> raw;
  bool stop = false;
  for (uint64_t p = d.first;; p += 28) {
    std::string e;
    if (p != d.first && p >= (uint64_t)d.first + d.second) break;
    NEED(rd(p, 28, e), "directory");
    uint32_t type = le32(e, 12), size = le32(e, 16), ptr = le32(e, 24);
    if ((!ptr && !type) || p >= (uint64_t)d.first + d.second) break;   // entries without raw data do not end the directory
    if (ptr && (type == 1 || type == 2 || type == 4) && size && (uint64_t)ptr + size > bytes.size()) stop = true;   // payloads after an unreadable one are not collected
    r += dbg_entry_text(le32(e, 0), le32(e, 4), le16(e, 8), le16(e, 10), type, size, le32(e, 20), ptr);
    r += fmt(" kind=%u", type <= 11 ? type : 0);
    std::string x;
    if (ptr && (type == 1 || type == 2 || type == 4) && size && (!stop || raw.count(ptr))) {
      // first entry with this file offset wins
      if (!raw.count(ptr)) raw[ptr] = bytes.substr(ptr, size);
      x = raw[ptr];
      if (type == 2) {
        NEED(x.size() >= 8, "codeview");
        std::string sig = x.substr(0, 4);
        if (sig == "RSDS") {
          NEED(x.size() >= 25 && x.find('\0', 24) != std::string::npos, "rsds");
          r += " pdb7 guid=" + hexs(x.substr(4, 16)) + fmt(" age=%u ", le32(x, 20)) + esc(cstrn(x, 24));
        } else if (sig == "NB10") {
          NEED(x.size() >= 17 && x.find('\0', 16) != std::string::npos, "nb10");
          r += fmt(" pdb2 sig=%x age=%u ", le32(x, 8), le32(x, 12)) + esc(cstrn(x, 16));
        } else if (sig == "NB09") r += " cv4";
        else if (sig == "NB11") r += " cv5";
        else if (sig == "NB05") r += " cv";
      } else if (type == 4) {
        NEED(x.size() >= 13, "misc");
        uint32_t len = le32(x, 4);
        NEED(len >= 12 && len <= x.size(), "misc length");
        r += fmt(" misc type=%u uni=%d ", le32(x, 0), x[8] ? 1 : 0);
        std::string t = x.substr(12, len - 12);
        if (x[8]) {
          std::string w;
          for (size_t i = 0; i + 1 < t.size(); i += 2) w += fmt("%04x", le16(t, i));
          while (w.size() >= 4 && w.substr(w.size() - 4) == "0000") w.resize(w.size() - 4);
          r += w;
        } else r += esc(stripz(t));
        r += fmt(" exe=%d", le32(x, 0) == 1);
      } else {
        NEED(x.size() >= 32, "coff");
        uint64_t n = le32(x, 0), lva = le32(x, 4);
        NEED(n * 18 + lva <= x.size(), "coff symbols");
        r += fmt(" coff n=%u lva=%x nl=%u lvl=%x c=%x-%x d=%x-%x", le32(x, 0), le32(x, 4), le32(x, 8), le32(x, 12), le32(x, 16), le32(x, 20), le32(x, 24), le32(x, 28));
        for (uint64_t i = 0; i < n; ++i) {
          std::string s = x.substr(lva + i * 18, 18);
          uint32_t cls = (unsigned char)s[16], aux = (unsigned char)s[17], st = le16(s, 14), secn = le16(s, 12);
          NEED(i + aux <= n && (i + 1 + aux) * 18 + lva <= x.size(), "coff aux");
          if (cls == 0x67) {
            r += fmt("\n  file i=%llu ty=%u ", (unsigned long long)i, st) + esc(stripz(x.substr(lva + (i + 1) * 18, aux * 18)));
          } else if ((cls == 3 && aux == 0 && secn == 1) || (cls == 2 && (st & 0x30) == 0x20 && (int16_t)secn > 0)) {
            std::string nm;
            if (le32(s, 0)) nm = std::string(s.substr(0, 8).c_str());
            else {
              uint64_t o = lva + n * 18 + le32(s, 4);
              NEED(o < x.size() && x.find('\0', o) != std::string::npos, "coff name");
              nm = x.c_str() + o;
            }
            r += fmt("\n  sym i=%llu cls=%u ty=%u sec=%u rva=%x ", (unsigned long long)i, cls, st, secn, le32(s, 8)) + esc(nm);
          }
          i += aux;   // auxiliary records are no symbols
        }
      }
    }
    r += "\n";
  }
  return r;
}

std::string RefPe::exceptions() const {
  auto d = dir(3);
  if (!d.first) return "";
  std::string r;
  for (uint64_t p = d.first; p + 12 <= (uint64_t)d.first + d.second; p += 12) {
    std::string e, w;
    NEED(rd(p, 12, e), "table");
    if (!le32(e, 0)) break;
    NEED(le32(e, 0) <= le32(e, 4), "range");
    NEED(rd(le32(e, 8), 4, w), "unwind");
    unsigned fl = (unsigned char)w[0] >> 3;
    r += fmt("fn %x-%x unwind=%x ver=%u flags=%u prolog=%u slots=%u reg=%u off=%u", le32(e, 0), le32(e, 4), le32(e, 8), w[0] & 7, fl,
             (unsigned char)w[1], (unsigned char)w[2], w[3] & 15, (unsigned char)w[3] >> 4);
    r += fmt(" eh=%u uh=%u ch=%u fp=%d\n", fl & 1, fl >> 1 & 1, fl >> 2 & 1, (w[3] & 15) != 0);
  }
  return r;
}

std::string RefPe::dotnet() const {
  auto d = dir(14);
  if (!d.first) return "";
  std::string h;
  NEED(rd(d.first, 72, h), "header");
  std::string r = fmt("net %u.%u flags=%x ep=%x", le16(h, 4), le16(h, 6), le32(h, 16), le32(h, 20));
  r += fmt(" native=%d b32=%d lib=%d il=%d", !!(h[16] & 16), !!(h[16] & 2), !!(h[16] & 4), !!(h[16] & 1));
  const int offs[] = {8, 24, 32, 40, 48, 56, 64};
  for (int o : offs) r += fmt(" %x+%x", le32(h, o), le32(h, o + 4));
  return r + "\n";
}

std::string RefPe::rich() const {
  std::string r;
  size_t n = stub.size(), at = n, ds = n;
  for (size_t i = 0; i + 4 <= n; ++i) if (le32(stub, i) == 0x68636952) { at = i; break; }
  if (at == n || at + 8 > n) return r;
  uint32_t key = le32(stub, at + 4);
  for (size_t i = 0; i + 4 <= n; ++i) if ((le32(stub, i) ^ key) == 0x536e6144) { ds = i; break; }
  if (ds == n) return r;
  for (size_t i = ds + 16; i + 8 <= n; i += 8) {
    if (le32(stub, i) == 0x68636952) break;
    uint32_t a = le32(stub, i) ^ key;
    r += fmt("rich num=%u ver=%u times=%u\n", a >> 16, a & 0xffff, le32(stub, i + 4) ^ key);
  }
  return r;
}

std::string RefPe::component(const std::string& c) const {
  if (c == "imp") return imports();
  if (c == "exp") return exports();
  if (c == "rel") return relocs();
  if (c == "tls") return tls();
  if (c == "cfg") return config();
  if (c == "bnd") return bound();
  if (c == "res") return resources();
  if (c == "dbg") return debug();
  if (c == "exc") return exceptions();
  if (c == "net") return dotnet();
  if (c == "rich") return rich();
  return "?";
}

std::string RefPe::layout_problems(bool contiguous, bool soh) const {
  uint32_t size_of_headers = this->size_of_headers;
  if (!ok) return err;
  if (sec_off != nt_off + 24 + le16(bytes, nt_off + 20)) return "section table position";
  if (le16(bytes, nt_off + 20) < nt_size - 24) return fmt("SizeOfOptionalHeader %u does not cover %u directories", le16(bytes, nt_off + 20), ndirs);
  uint64_t hdr_end = sec_off + secs.size() * 40ull;
  if (!soh) size_of_headers = alup<uint32_t>((uint32_t)hdr_end, falign ? falign : 1);   // the caller kept the stored value
  if (size_of_headers < hdr_end) return fmt("SizeOfHeaders %x smaller than headers %llx", size_of_headers, (unsigned long long)hdr_end);
  if (falign && size_of_headers % falign) return fmt("SizeOfHeaders %x not file aligned", size_of_headers);
  uint64_t pos = size_of_headers, expect_va = 0, file_end = hdr_end;
  std::vector<std::pair<uint64_t, uint64_t>> ext;
  for (size_t i = 0; i < secs.size(); ++i) {
    auto& s = secs[i];
    if (s.va % salign) return fmt("section %zu va %x not aligned", i, s.va);
    if (i == 0 && s.va < size_of_headers) return "first section overlaps headers";
    if (i && s.va != expect_va) return fmt("section %zu va %x, expected %llx", i, s.va, (unsigned long long)expect_va);
    expect_va = s.va + alup<uint64_t>(s.vsize ? s.vsize : s.rawsize, salign);
    if (s.rawsize) {
      if (s.rawptr % falign) return fmt("section %zu file offset %x not aligned to %x", i, s.rawptr, falign);
      if (s.rawptr < size_of_headers) return fmt("section %zu file offset %x inside the headers", i, s.rawptr);
      if ((uint64_t)s.rawptr + s.rawsize > bytes.size()) return fmt("section %zu raw data beyond end of file", i);
      for (auto& e : ext)
        if (s.rawptr < e.second && e.first < (uint64_t)s.rawptr + s.rawsize) return fmt("section %zu overlaps another in the file", i);
      ext.push_back({s.rawptr, (uint64_t)s.rawptr + s.rawsize});
      file_end = std::max<uint64_t>(file_end, (uint64_t)s.rawptr + s.rawsize);
    }
    pos += s.rawsize;
  }
  if (contiguous && !secs.empty() && size_of_image != expect_va) return fmt("SizeOfImage %x, sections end at %llx", size_of_image, (unsigned long long)expect_va);
  // bytes between the pieces are zero
  std::sort(ext.begin(), ext.end());
  uint64_t p = hdr_end;
  ext.push_back({bytes.size(), bytes.size()});
  for (auto& e : ext) {
    for (uint64_t k = p; k < e.first && k < bytes.size(); ++k)
      if (bytes[k]) {
        // a bound import table may live between the section headers and the first section
        auto b = dir(11);
        if (b.first && b.first < size_of_headers && k < size_of_headers) continue;
        return fmt("gap byte at %llx is not zero", (unsigned long long)k);
      }
    p = std::max(p, e.second);
  }
  return "";
}

}  // namespace sim
