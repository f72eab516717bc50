// See resmodel.h.
#include "resmodel.h"
#include <algorithm>

namespace sim {
using namespace pe_bliss;

static std::wstring w(const std::u16string& s) { std::wstring r; for (auto c : s) r += (wchar_t)c; return r; }
static std::u16string n16(const std::wstring& s) { std::u16string r; for (auto c : s) r += (char16_t)c; return r; }
static std::string t16(const std::u16string& s) { std::string r; for (auto c : s) r += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\u%04x", c); return r; }
static std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); return s; }
typedef pe_resource_viewer::resource_type RT;
typedef pe_resource_viewer V;

// ------------------------------------------------------------------ generators
static std::u16string name16(Rng& r) {
  int n = r.chance(1, 12) ? 0 : 1 + (int)r.below(r.chance(1, 10) ? 40 : 5);
  std::u16string s;
  for (int i = 0; i < n; ++i) s += (char16_t)(r.chance(1, 5) ? 0x400 + r.below(0x100) : 'A' + r.below(26));
  return s;
}
static std::string blob(Rng& r, size_t max) {
  size_t n = r.chance(1, 6) ? r.below(4) : r.below(max + 1);
  std::string s(n, '\0');
  int mode = (int)r.below(3);
  for (auto& c : s) c = mode == 0 ? (char)r.next() : mode == 1 ? (char)('a' + r.below(26)) : (char)(r.chance(1, 2) ? 0 : r.next());
  return s;
}
// where the pixels of a packed bitmap start: after the information header (40 bytes or a longer
// version of it), the colour masks of a 40-byte header, and the colour table; 0: not such a bitmap
static uint32_t bmp_bits(const std::string& info) {
  uint32_t hs = le32(info, 0), bc = le16(info, 14), comp = le32(info, 16), used = le32(info, 32);
  if (hs < 40 || hs > 124 || used > 0x10000) return 0;
  uint32_t off = 14 + hs;
  if (hs == 40 && comp == 3) off += 12;
  if (hs == 40 && comp == 6) off += 16;
  if (used) off += used * 4;
  else if (bc && bc <= 8) off += 4u << bc;
  return off;
}
static std::string rnd_bmp(Rng& r) {
  uint32_t hs = r.pick(std::vector<uint32_t>{40, 40, 40, 40, 52, 56, 64, 108, 124});
  std::string info(hs + r.below(60), '\0');
  for (auto& c : info) c = (char)r.next();
  put32(info, 0, hs);
  put16(info, 14, r.pick(std::vector<uint32_t>{1, 4, 8, 16, 24, 32, 0}));
  put32(info, 16, r.pick(std::vector<uint32_t>{0, 0, 1, 2, 3, 3, 4, 5, 6}));
  put32(info, 32, r.chance(1, 2) ? 0 : (uint32_t)r.below(300));
  if (r.chance(1, 10)) info.resize(r.below(41));
  std::string h = "BM" + le(14 + info.size(), 4) + le(0, 4) + le(54, 4);
  if (info.size() >= 40) put32(h, 10, bmp_bits(info));
  std::string f = h + info;
  if (r.chance(1, 12)) f.resize(r.below(15));
  return f;
}
static std::string rnd_ico(Rng& r, int type) {
  int n = (int)r.below(r.chance(1, 6) ? 1 : 5) + (r.chance(1, 12) ? 0 : 1);
  bool gaps = r.chance(1, 4);
  std::string head = le(r.chance(1, 8) ? r.below(9) : 0, 2) + le(type, 2) + le(n, 2), body;
  uint32_t off = 6 + 16 * n;
  std::vector<std::string> img;
  for (int i = 0; i < n; ++i) { std::string b = blob(r, 60); if (b.empty()) b = "x"; img.push_back(b); }
  std::string dir;
  for (int i = 0; i < n; ++i) {
    if (gaps && r.chance(1, 2)) body += std::string(r.below(9), 'G');
    uint32_t o = off + (uint32_t)body.size();
    if (gaps && i && r.chance(1, 4)) { o = off + (uint32_t)r.below(body.size() + 1); if (o + img[i].size() > off + body.size()) body.resize(o + img[i].size() - off, 's'); }
    else body += img[i];
    dir += le(r.next() & 0xff, 1) + le(r.next() & 0xff, 1);
    if (type == 1) dir += le(r.next() & 0xff, 1) + le(r.chance(1, 4) ? r.next() & 0xff : 0, 1) + le(r.next() & 0xffff, 2) + le(r.next() & 0xffff, 2);
    else dir += le(r.chance(1, 4) ? r.next() & 0xff : 0, 1) + le(r.chance(1, 6) ? r.next() & 0xff : 0, 1) + le(r.next() & 0xffff, 2) + le(r.next() & 0xffff, 2);
    dir += le(img[i].size(), 4) + le(o, 4);
  }
  std::string f = head + dir + body;
  if (r.chance(1, 8)) {   // broken files must be refused without a trace
    switch (r.below(6)) {
      case 0: f.resize(r.below(f.size() + 1)); break;
      case 1: if (n) put32(f, 6 + 16 * r.below(n) + 8, 0); break;
      case 2: if (n) put32(f, 6 + 16 * r.below(n) + 12, (uint32_t)r.below(off)); break;
      case 3: if (n) put32(f, 6 + 16 * r.below(n) + 8, 0xfffffff0u + (uint32_t)r.below(16)); break;
      case 4: if (n) put32(f, 6 + 16 * r.below(n) + 8, (uint32_t)f.size()); break;
      case 5: put16(f, 4, n + 1 + (uint32_t)r.below(3)); break;
    }
  }
  return f;
}
static std::u16string ver_text(Rng& r, size_t max) {
  size_t n = r.below(max + 1);
  std::u16string s;
  for (size_t i = 0; i < n; ++i) s += (char16_t)(r.chance(1, 6) ? 0x410 + r.below(64) : ' ' + r.below(95));
  return s;
}
static std::u16string a16(const char* p) { std::u16string s; while (*p) s += (char16_t)(unsigned char)*p++; return s; }
static const char* kProps[] = {"CompanyName", "FileDescription", "FileVersion", "InternalName", "LegalCopyright", "OriginalFilename", "ProductName", "ProductVersion"};
static std::u16string tr_text(Rng& r) {
  static const char* t[] = {"041904b0", "040904b0", "04090000", "000004e4", "041904e3"};
  std::u16string s = r.chance(1, 5) ? a16(fmt("%04x%04x", (unsigned)r.below(65536), (unsigned)r.below(65536)).c_str()) : a16(t[r.below(5)]);
  if (r.chance(1, 6)) for (auto& c : s) if (c >= u'a' && c <= u'f') c -= 32;      // the case resource compilers leave as the author wrote it
  return s;
}
static std::u16string low16(std::u16string s) { for (auto& c : s) if (c >= u'A' && c <= u'F') c += 32; return s; }
// the table of a translation: the name given, else the first that differs in the case of its digits only
template <class M> static auto table_of(M& m, const std::u16string& t) -> decltype(m.begin()) {
  auto i = m.find(t);
  if (i == m.end()) for (i = m.begin(); i != m.end() && low16(i->first) != low16(t); ++i);
  return i;
}
// values of the two enumerated fields that have a name in the library, in the order of its enumerations
static const uint32_t kOs[] = {0x10000, 0x20000, 0x30000, 0x40000, 0x50000, 1, 2, 3, 4, 0x10001, 0x10004, 0x20002, 0x30003, 0x40004};
static const uint32_t kFt[] = {1, 2, 3, 4, 5, 7};
template <size_t N> static int index_of(const uint32_t (&t)[N], uint32_t v) { for (size_t i = 0; i < N; ++i) if (t[i] == v) return (int)i + 1; return 0; }
static VerSpec rnd_ver(Rng& r) {
  VerSpec v;
  v.has_fixed = true;
  for (auto& f : v.fixed) f = r.chance(1, 3) ? 0 : (uint32_t)r.next();
  if (r.chance(2, 3)) { v.fixed[5] = kOs[r.below(14)]; v.fixed[6] = kFt[r.below(6)]; }
  int tables = (int)r.below(4);
  for (int i = 0; i < tables; ++i) {
    auto& t = v.strings[tr_text(r)];
    int n = (int)r.below(6);
    for (int k = 0; k < n; ++k) t[r.chance(1, 2) ? a16(kProps[r.below(8)]) : name16(r)] = ver_text(r, r.chance(1, 20) ? 400 : 20);
  }
  if (r.chance(1, 16)) { auto& t = v.strings[tr_text(r)]; t[a16("Long")] = std::u16string(r.range(32000, 33500), u'L'); }
  int trs = (int)r.below(4);
  for (int i = 0; i < trs; ++i) v.tr.insert({(uint16_t)(r.chance(1, 2) ? 0x419 : r.below(65536)), (uint16_t)(r.chance(1, 2) ? 1200 : r.below(65536))});
  return v;
}
std::string rnd_string_table(Rng& r) {
  std::string d;
  size_t at[16];
  for (int i = 0; i < 16; ++i) {
    std::u16string s = r.chance(1, 3) ? std::u16string() : ver_text(r, 12);
    if (r.chance(1, 30)) s = std::u16string(300, u'q');
    at[i] = d.size();
    d += le(s.size(), 2);
    for (auto c : s) d += le(c, 2);
  }
  if (r.chance(1, 12)) { d.resize(at[r.below(16)] + (r.chance(1, 3) ? 2 : 0)); return d; }   // cut exactly where a string would start
  if (r.chance(1, 5)) d += std::string(r.below(9), '\0');
  if (r.chance(1, 10)) d.resize(r.below(d.size() + 1));
  return d;
}
std::string rnd_message_table(Rng& r) {
  int nb = (int)r.below(4);
  std::string head = le(nb, 4), ents;
  uint32_t id = (uint32_t)r.below(1000), base = 4 + 12 * nb;
  std::vector<size_t> at;
  for (int b = 0; b < nb; ++b) {
    int n = 1 + (int)r.below(4);
    if (r.chance(1, 5)) id = (uint32_t)r.below(1000);   // overlapping or unordered blocks
    else if (r.chance(1, 12)) id = 0u - n - (r.chance(1, 2) ? 0 : (uint32_t)r.below(3));   // up to the last id there is
    head += le(id, 4) + le(id + n - 1, 4) + le(base + ents.size(), 4);
    for (int k = 0; k < n; ++k) {
      bool uni = r.chance(1, 2);
      std::string t;
      if (uni) for (auto c : ver_text(r, 10)) t += le(c, 2);
      else { for (auto c : ver_text(r, 10)) t += (char)(c < 128 ? c : 'x'); }
      t += uni ? le(0, 2) : le(0, 1);
      while (t.size() % 4) t += '\0';
      at.push_back(ents.size());
      ents += le(4 + t.size(), 2) + le(uni ? 1 : 0, 2) + t;
    }
    id += n + (uint32_t)r.below(5);
  }
  std::string d = head + ents;
  if (r.chance(1, 12) && !at.empty()) { d.resize(head.size() + r.pick(at)); return d; }
  if (r.chance(1, 10)) d.resize(r.below(d.size() + 1));
  return d;
}

std::string ResStep::text() const {
  static const char* k[] = {"add", "remove-type", "remove-entry", "remove-language", "bitmap", "remove-bitmap", "icon", "remove-icon", "cursor", "remove-cursor", "version", "edit-version", "remove-version"};
  return fmt("%s %s", k[kind], key.text().c_str()) + (data.empty() ? "" : fmt(" %zu bytes", data.size())) + (kind == RS_ICON || kind == RS_CUR ? fmt(" mode=%d", mode) : "");
}

ResStep rnd_step(Rng& r, const ResMap& m, bool typed) {
  ResStep s;
  s.seed = r.next();
  s.cp = r.chance(1, 2) ? 0 : (uint32_t)r.next();
  s.ts = r.chance(1, 2) ? 0 : (uint32_t)r.next();
  int w = (int)r.below(100);
  std::vector<uint32_t> langs = {1033, 1049, 0, (uint32_t)r.below(2048)};
  auto existing = [&](int type) {       // an existing key, of that type when type > 0
    std::vector<const ResKey*> c;
    for (auto& kv : m) if (!kv.first.named[2] && (kv.first.named[0] || kv.first.id[0] < 31) && (!type || (!kv.first.named[0] && kv.first.id[0] == (uint32_t)type))) c.push_back(&kv.first);
    return c.empty() ? nullptr : c[r.below(c.size())];
  };
  auto entry = [&](bool small) {
    s.key.named[1] = r.chance(1, 3);
    if (s.key.named[1]) s.key.name[1] = small ? std::u16string(1, (char16_t)(u'A' + r.below(3))) : name16(r);
    else s.key.id[1] = (uint32_t)r.below(small ? 4 : r.chance(1, 8) ? 0x10000 : 30);
  };
  if (!typed || w < 25) {
    int a = (int)r.below(10);
    s.kind = a < 6 ? RS_ADD : a == 6 ? RS_RM_TYPE : a == 7 ? RS_RM_ENTRY : RS_RM_LANG;
    s.data = s.kind == RS_ADD ? blob(r, 120) : "";
    const ResKey* e = r.chance(1, 2) ? existing(0) : nullptr;
    if (e) s.key = *e;
    else {
      s.key.named[0] = r.chance(1, 4);
      if (s.key.named[0]) s.key.name[0] = r.chance(1, 2) ? u"R" : name16(r);
      else s.key.id[0] = (uint32_t)r.below(25);
      entry(r.chance(1, 2));
      s.key.id[2] = r.pick(langs);
    }
    int d = (int)r.below(8);          // often vary one level
    if (e && d == 0) entry(true);
    if (e && d <= 2) s.key.id[2] = r.pick(langs);
    if (typed && s.kind == RS_ADD && !s.key.named[0]) {
      uint32_t t = s.key.id[0];
      if (r.chance(1, 3)) { s.key.named[1] = false; s.key.name[1].clear(); s.key.id[1] = 1 + (uint32_t)r.below(6); s.key.id[0] = t = r.chance(1, 2) ? 6 : 11; }
      if (t == 6) s.data = rnd_string_table(r);
      else if (t == 11) s.data = rnd_message_table(r);
      else if (t == 16) s.data = r.chance(1, 2) ? encode_version(rnd_ver(r)) : s.data;
      else if ((t == 1 || t == 3) && r.chance(1, 2) && !s.key.named[1]) s.key.id[1] = r.chance(1, 3) ? 65528 + (uint32_t)r.below(8) : 1 + (uint32_t)r.below(12);
      if (t == 1 && s.data.size() < 4) s.data += "hot.";
      if (t == 12 || t == 14) {        // a group made by hand: maybe naming images that do not exist
        int n = (int)r.below(4);
        s.data = le(0, 2) + le(t == 14 ? 1 : 2, 2) + le(n, 2);
        for (int i = 0; i < n; ++i) s.data += blob(r, 0) + le(r.next(), 8) + le(5 + r.below(40), 4) + le(1 + r.below(12), 2);
        if (r.chance(1, 6)) s.data.resize(r.below(s.data.size() + 1));
      }
    }
    return s;
  }
  s.key.named[0] = false;
  auto key_of = [&](uint32_t type) {
    const ResKey* e = r.chance(1, 2) ? existing((int)type) : nullptr;
    if (e) s.key = *e; else { entry(true); s.key.id[2] = r.pick(langs); }
    if (e && r.chance(1, 5)) s.key.id[2] = r.pick(langs);
    s.key.id[0] = type;
    s.mode = (int)r.below(2);
  };
  if (w < 38) { s.kind = w < 34 ? RS_BMP : RS_RM_BMP; key_of(2); if (s.kind == RS_BMP) s.data = rnd_bmp(r); }
  else if (w < 58) { s.kind = w < 51 ? RS_ICON : RS_RM_ICON; key_of(14); if (s.kind == RS_ICON) s.data = rnd_ico(r, 1); }
  else if (w < 78) { s.kind = w < 71 ? RS_CUR : RS_RM_CUR; key_of(12); if (s.kind == RS_CUR) s.data = rnd_ico(r, 2); }
  else {
    s.kind = w < 86 ? RS_VER : w < 96 ? RS_VER_EDIT : RS_RM_VER;
    key_of(16);
    s.key.named[1] = false; s.key.name[1].clear(); s.key.id[1] = 1;
    if (s.kind == RS_VER) s.ver = rnd_ver(r);
  }
  return s;
}

// ------------------------------------------------------------------ version blocks
std::string text(const VerSpec& v) {
  std::string s = "fixed";
  for (auto f : v.fixed) s += fmt(" %x", f);
  s += "\n";
  for (auto& t : v.strings) { s += "table " + t16(t.first) + "\n"; for (auto& e : t.second) s += "  " + t16(e.first) + "=" + t16(e.second) + "\n"; }
  std::vector<std::pair<uint16_t, uint16_t>> tr(v.tr.begin(), v.tr.end());
  std::sort(tr.begin(), tr.end());
  for (auto& t : tr) s += fmt("tr %x %x\n", t.first, t.second);
  return s;
}
namespace {
struct Blk { size_t pos = 0, end = 0, val = 0, vlen = 0, kids = 0; uint32_t type = 0; std::u16string key; };
size_t up4(size_t x) { return (x + 3) & ~(size_t)3; }
bool blk(const std::string& d, size_t pos, size_t limit, Blk& b) {
  if (pos + 6 > limit || limit > d.size()) return false;
  uint32_t len = le16(d, pos);
  b.vlen = le16(d, pos + 2);
  b.type = le16(d, pos + 4);
  b.pos = pos;
  b.end = pos + len;
  if (len < 8 || b.end > limit) return false;
  size_t p = pos + 6;
  for (;; p += 2) {
    if (p + 2 > b.end) return false;
    char16_t c = (char16_t)le16(d, p);
    if (!c) break;
    if (c >= 0xd800 && c < 0xe000) return false;
    b.key += c;
  }
  b.val = up4(p + 2);
  return true;
}
}
bool decode_version(const std::string& d, VerSpec& v) {
  Blk root;
  if (!blk(d, 0, d.size(), root) || root.key != u"VS_VERSION_INFO") return false;
  v = VerSpec();
  if (root.vlen) {
    if (root.vlen != 52 || root.val + 52 > root.end) return false;
    if (le32(d, root.val) != 0xfeef04bd || le32(d, root.val + 4) != 0x10000) return false;
    static const int off[10] = {8, 12, 16, 20, 28, 32, 36, 40, 44, 48};
    for (int i = 0; i < 10; ++i) v.fixed[i] = le32(d, root.val + off[i]);
    v.has_fixed = true;
  }
  for (size_t p = up4(root.val + root.vlen); p < root.end;) {
    Blk c;
    if (!blk(d, p, root.end, c) || c.vlen) return false;
    if (c.key == u"StringFileInfo") {
      for (size_t q = c.val; q < c.end;) {
        Blk t;
        if (!blk(d, q, c.end, t) || t.vlen) return false;
        std::map<std::u16string, std::u16string> vals;
        for (size_t z = t.val; z < t.end;) {
          Blk s;
          if (!blk(d, z, t.end, s)) return false;
          std::u16string val;
          if (s.val + s.vlen * 2 > s.end + (s.vlen ? 0 : 4)) return false;
          for (size_t i = 0; i < s.vlen; ++i) { char16_t ch = (char16_t)le16(d, s.val + 2 * i); if (ch >= 0xd800 && ch < 0xe000) return false; val += ch; }
          while (!val.empty() && !val.back()) val.pop_back();
          if (val.find(u'\0') != std::u16string::npos) return false;
          vals.insert({s.key, val});
          z = up4(s.end);
        }
        v.strings.insert({t.key, vals});
        q = up4(t.end);
      }
    } else if (c.key == u"VarFileInfo") {
      for (size_t q = c.val; q < c.end;) {
        Blk t;
        if (!blk(d, q, c.end, t)) return false;
        if (t.val + t.vlen > t.end + (t.vlen ? 0 : 4) || t.vlen % 4) return false;
        if (t.key == u"Translation") for (size_t i = 0; i < t.vlen; i += 4) v.tr.insert({(uint16_t)le16(d, t.val + i), (uint16_t)le16(d, t.val + i + 2)});
        q = up4(t.end);
      }
    } else return false;
    p = up4(c.end);
  }
  return true;
}
static std::string enc_blk(const std::u16string& key, uint32_t type, const std::string& value, uint32_t vlen, const std::vector<std::string>& kids) {
  std::string s = le(0, 2) + le(vlen, 2) + le(type, 2);
  for (auto c : key) s += le(c, 2);
  s += le(0, 2);
  if (!value.empty() || !kids.empty()) s.resize(up4(s.size()), '\0');
  s += value;
  for (auto& k : kids) { s.resize(up4(s.size()), '\0'); s += k; }
  if (s.size() <= 0xffff) put16(s, 0, (uint32_t)s.size());
  return s;
}
std::string encode_version(const VerSpec& v) {
  std::string fx = le(0xfeef04bd, 4) + le(0x10000, 4);
  for (int i = 0; i < 4; ++i) fx += le(v.fixed[i], 4);
  fx += le(0x3f, 4);
  for (int i = 4; i < 10; ++i) fx += le(v.fixed[i], 4);
  std::vector<std::string> kids;
  if (!v.strings.empty()) {
    std::vector<std::string> tabs;
    for (auto& t : v.strings) {
      std::vector<std::string> ss;
      for (auto& e : t.second) {
        std::string val;
        for (auto c : e.second) val += le(c, 2);
        val += le(0, 2);
        ss.push_back(enc_blk(e.first, 1, val, (uint32_t)e.second.size() + 1, {}));
      }
      tabs.push_back(enc_blk(t.first, 1, "", 0, ss));
    }
    kids.push_back(enc_blk(u"StringFileInfo", 1, "", 0, tabs));
  }
  if (!v.tr.empty()) {
    std::string val;
    for (auto& t : v.tr) val += le(t.first, 2) + le(t.second, 2);
    kids.push_back(enc_blk(u"VarFileInfo", 1, "", 0, {enc_blk(u"Translation", 0, val, (uint32_t)val.size(), {})}));
  }
  return enc_blk(u"VS_VERSION_INFO", 0, fx, 52, kids);
}

static file_version_info to_lib(const VerSpec& v) {
  file_version_info f;
  f.set_file_version_ms(v.fixed[0]); f.set_file_version_ls(v.fixed[1]);
  f.set_product_version_ms(v.fixed[2]); f.set_product_version_ls(v.fixed[3]);
  f.set_file_flags(v.fixed[4]); f.set_file_os_raw(v.fixed[5]); f.set_file_type_raw(v.fixed[6]); f.set_file_subtype(v.fixed[7]);
  f.set_file_date_ms(v.fixed[8]); f.set_file_date_ls(v.fixed[9]);
  int os = index_of(kOs, v.fixed[5]), ft = index_of(kFt, v.fixed[6]);
  if (os) { f.set_file_os_raw(0); f.set_file_os((file_version_info::file_os_type)os); }
  if (ft) { f.set_file_type_raw(0); f.set_file_type((file_version_info::file_type)ft); }
  return f;
}
static void to_lib(const VerSpec& v, lang_string_values_map& s, translation_values_map& t) {
  for (auto& a : v.strings) { auto& m = s[w(a.first)]; for (auto& e : a.second) m[w(e.first)] = w(e.second); }
  for (auto& a : v.tr) t.insert(std::make_pair(a.first, a.second));
}
static VerSpec from_lib(const file_version_info& f, const lang_string_values_map& s, const translation_values_map& t) {
  VerSpec v;
  v.fixed = {f.get_file_version_ms(), f.get_file_version_ls(), f.get_product_version_ms(), f.get_product_version_ls(), f.get_file_flags(), f.get_file_os_raw(), f.get_file_type_raw(), f.get_file_subtype(), f.get_file_date_ms(), f.get_file_date_ls()};
  if (f.get_file_os() != index_of(kOs, v.fixed[5])) v.fixed[5] = 0xbad00000u + f.get_file_os();   // the named value disagrees with the stored one
  if (f.get_file_type() != index_of(kFt, v.fixed[6])) v.fixed[6] = 0xbad00000u + f.get_file_type();
  for (auto& a : s) { auto& m = v.strings[n16(a.first)]; for (auto& e : a.second) m[n16(e.first)] = n16(e.second); }
  for (auto& a : t) v.tr.insert({a.first, a.second});
  return v;
}
// the same random editing script, once through the library's editor, once on the model
static void edit_lib(version_info_editor& e, file_version_info& f, Rng r, int n0 = 0) {
  int n = 1 + (int)r.below(5);
  if (n0) n = n0;
  for (int i = 0; i < n; ++i) {
    int a = (int)r.below(6);
    std::u16string tr = r.chance(1, 2) ? std::u16string() : tr_text(r), prop = a16(kProps[r.below(8)]), val = ver_text(r, 16), any = name16(r);
    uint32_t x = (uint32_t)r.next();
    switch (a) {
      case 0: case 1: {
        std::wstring v = w(val), t = w(tr);
        std::string p(prop.begin(), prop.end());
        if (p == "CompanyName") e.set_company_name(v, t); else if (p == "FileDescription") e.set_file_description(v, t); else if (p == "FileVersion") e.set_file_version(v, t);
        else if (p == "InternalName") e.set_internal_name(v, t); else if (p == "LegalCopyright") e.set_legal_copyright(v, t); else if (p == "OriginalFilename") e.set_original_filename(v, t);
        else if (p == "ProductName") e.set_product_name(v, t); else e.set_product_version(v, t);
        break;
      }
      case 2: e.set_property(w(any), w(val), w(tr)); break;
      case 3: if (!tr.empty()) e.add_translation(w(tr)); else e.add_translation((uint16_t)x, (uint16_t)(x >> 16)); break;
      case 4: if (!tr.empty()) e.remove_translation(w(tr)); else e.remove_translation((uint16_t)x, (uint16_t)(x >> 16)); break;
      case 5: f.set_debug(x & 1); f.set_prerelease(x & 2); f.set_patched(x & 4); f.set_private_build(x & 8); f.set_special_build(x & 16); f.set_info_inferred(x & 32); break;
    }
  }
}
static std::pair<uint16_t, uint16_t> tr_ids(const std::u16string& t) { std::string a(t.begin(), t.end()); unsigned long x = strtoul(a.c_str(), 0, 16); return {(uint16_t)(x >> 16), (uint16_t)x}; }
static void add_tr(VerSpec& v, std::pair<uint16_t, uint16_t> p) {
  for (auto i = v.tr.lower_bound(p.first); i != v.tr.upper_bound(p.first); ++i) if (i->second == p.second) return;
  v.tr.insert(p);
}
static void edit_model(VerSpec& v, Rng r, int n0 = 0) {
  int n = 1 + (int)r.below(5);
  if (n0) n = n0;
  for (int i = 0; i < n; ++i) {
    int a = (int)r.below(6);
    std::u16string tr = r.chance(1, 2) ? std::u16string() : tr_text(r), prop = a16(kProps[r.below(8)]), val = ver_text(r, 16), any = name16(r);
    uint32_t x = (uint32_t)r.next();
    auto set = [&](const std::u16string& p) {
      auto i = table_of(v.strings, tr.empty() ? std::u16string(u"041904b0") : tr);
      if (tr.empty() && i == v.strings.end()) i = v.strings.begin();
      if (i == v.strings.end()) { auto t = tr.empty() ? std::u16string(u"041904b0") : tr; v.strings[t]; add_tr(v, tr_ids(t)); i = v.strings.find(t); }
      i->second[p] = val;
    };
    switch (a) {
      case 0: case 1: set(prop); break;
      case 2: set(any); break;
      case 3: add_tr(v, tr.empty() ? std::make_pair((uint16_t)x, (uint16_t)(x >> 16)) : tr_ids(tr)); break;
      case 4: {
        auto p = tr.empty() ? std::make_pair((uint16_t)x, (uint16_t)(x >> 16)) : tr_ids(tr);
        auto t = a16(fmt("%04x%04x", p.first, p.second).c_str());
        for (auto i = table_of(v.strings, t); i != v.strings.end(); i = table_of(v.strings, t)) v.strings.erase(i);
        for (auto k = v.tr.lower_bound(p.first); k != v.tr.upper_bound(p.first); ++k) if (k->second == p.second) { v.tr.erase(k); break; }
        break;
      }
      case 5: {
        static const uint32_t bit[] = {1, 2, 4, 8, 32, 16};   // debug prerelease patched private special inferred
        for (int k = 0; k < 6; ++k) { if (x >> k & 1) v.fixed[4] |= bit[k]; else v.fixed[4] &= ~bit[k]; }
        break;
      }
    }
  }
}

// ------------------------------------------------------------------ the step on the library
std::string lib_step(const ResStep& s, resource_directory& root) {
  const ResKey& k = s.key;
  std::wstring n0 = w(k.name[0]), n1 = w(k.name[1]);
  RT t = (RT)k.id[0];
  uint32_t lang = k.id[2];
  auto tf = [](bool b) { return std::string(b ? "true" : "false"); };
  Lib l;
  try {
    pe_resource_manager m(root);
    switch (s.kind) {
      case RS_ADD:
        if (k.named[0] && k.named[1]) m.add_resource(s.data, n0, n1, lang, s.cp, s.ts);
        else if (k.named[0]) m.add_resource(s.data, n0, k.id[1], lang, s.cp, s.ts);
        else if (k.named[1]) m.add_resource(s.data, t, n1, lang, s.cp, s.ts);
        else m.add_resource(s.data, t, k.id[1], lang, s.cp, s.ts);
        return "ok";
      case RS_RM_TYPE: return tf(k.named[0] ? m.remove_resource(n0) : m.remove_resource_type(t));
      case RS_RM_ENTRY:
        if (k.named[0] && k.named[1]) return tf(m.remove_resource(n0, n1));
        if (k.named[0]) return tf(m.remove_resource(n0, k.id[1]));
        if (k.named[1]) return tf(m.remove_resource(t, n1));
        return tf(m.remove_resource(t, k.id[1]));
      case RS_RM_LANG:
        if (k.named[0] && k.named[1]) return tf(m.remove_resource(n0, n1, lang));
        if (k.named[0]) return tf(m.remove_resource(n0, k.id[1], lang));
        if (k.named[1]) return tf(m.remove_resource(t, n1, lang));
        return tf(m.remove_resource(t, k.id[1], lang));
      case RS_BMP: {
        resource_bitmap_writer b(m);
        if (k.named[1]) b.add_bitmap(s.data, n1, lang, s.cp, s.ts); else b.add_bitmap(s.data, k.id[1], lang, s.cp, s.ts);
        return "ok";
      }
      case RS_RM_BMP: { resource_bitmap_writer b(m); return tf(k.named[1] ? b.remove_bitmap(n1, lang) : b.remove_bitmap(k.id[1], lang)); }
      case RS_ICON: case RS_CUR: {
        resource_cursor_icon_writer c(m);
        auto mode = s.mode ? resource_cursor_icon_writer::icon_place_free_ids : resource_cursor_icon_writer::icon_place_after_max_icon_id;
        if (s.kind == RS_ICON) { if (k.named[1]) c.add_icon(s.data, n1, lang, mode, s.cp, s.ts); else c.add_icon(s.data, k.id[1], lang, mode, s.cp, s.ts); }
        else { if (k.named[1]) c.add_cursor(s.data, n1, lang, mode, s.cp, s.ts); else c.add_cursor(s.data, k.id[1], lang, mode, s.cp, s.ts); }
        return "ok";
      }
      case RS_RM_ICON: { resource_cursor_icon_writer c(m); return tf(k.named[1] ? c.remove_icon_group(n1, lang) : c.remove_icon_group(k.id[1], lang)); }
      case RS_RM_CUR: { resource_cursor_icon_writer c(m); return tf(k.named[1] ? c.remove_cursor_group(n1, lang) : c.remove_cursor_group(k.id[1], lang)); }
      case RS_VER: {
        lang_string_values_map sv; translation_values_map tv;
        to_lib(s.ver, sv, tv);
        resource_version_info_writer wr(m);
        wr.set_version_info(to_lib(s.ver), sv, tv, lang, s.cp, s.ts);
        return "ok";
      }
      case RS_VER_EDIT: {
        lang_string_values_map sv; translation_values_map tv;
        resource_version_info_reader rd(m);
        file_version_info f = rd.get_version_info_by_lang(sv, tv, lang);
        version_info_editor e(sv, tv);
        edit_lib(e, f, Rng(s.seed));
        resource_version_info_writer wr(m);
        wr.set_version_info(f, sv, tv, lang, s.cp, s.ts);
        return "ok";
      }
      case RS_RM_VER: { resource_version_info_writer wr(m); return tf(wr.remove_version_info(lang)); }
    }
  } catch (const pe_exception& e) { return "throws"; }
  return "?";
}

// ------------------------------------------------------------------ the step on the model
static ResKey mk(uint32_t type, uint32_t id, uint32_t lang) { ResKey k; k.id[0] = type; k.id[1] = id; k.id[2] = lang; return k; }
static bool same_level(const ResKey& a, const ResKey& b, int d) { return a.named[d] == b.named[d] && (a.named[d] ? a.name[d] == b.name[d] : a.id[d] == b.id[d]); }
static size_t erase_under(ResMap& m, const ResKey& k, int levels) {
  size_t n = 0;
  for (auto i = m.begin(); i != m.end();) {
    bool same = true;
    for (int d = 0; d < levels; ++d) same = same && same_level(i->first, k, d);
    if (same) { i = m.erase(i); ++n; } else ++i;
  }
  return n;
}
static const ResLeaf* leaf(const ResMap& m, const ResKey& k) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; }
static bool group_ok(const std::string& g) { return g.size() >= 6 && g.size() >= 6 + 14u * le16(g, 4); }

std::string model_step(const ResStep& s, ResMap& m, const ResMap& after, std::string& problem) {
  const ResKey& k = s.key;
  uint32_t lang = k.id[2];
  auto tf = [](bool b) { return std::string(b ? "true" : "false"); };
  switch (s.kind) {
    case RS_ADD: m[k] = ResLeaf{s.cp, s.data}; return "ok";
    case RS_RM_TYPE: return tf(erase_under(m, k, 1) > 0);
    case RS_RM_ENTRY: return tf(erase_under(m, k, 2) > 0);
    case RS_RM_LANG: case RS_RM_BMP: case RS_RM_VER: return tf(erase_under(m, k, 3) > 0);
    case RS_BMP:
      if (s.data.size() < 14) return "throws";
      m[k] = ResLeaf{s.cp, s.data.substr(14)};
      return "ok";
    case RS_ICON: case RS_CUR: {
      bool icon = s.kind == RS_ICON;
      uint32_t itype = icon ? 3 : 1;
      const std::string& f = s.data;
      if (f.size() < 6) return "throws";
      uint32_t n = le16(f, 4);
      if (!n || f.size() < 6 + 16ull * n) return "throws";
      for (uint32_t i = 0; i < n; ++i) {
        uint64_t sz = le32(f, 6 + 16 * i + 8), off = le32(f, 6 + 16 * i + 12);
        if (!sz || off < 6 + 16ull * n || off + sz > f.size()) return "throws";
      }
      const ResLeaf* g = leaf(m, k);
      std::string grp;
      uint32_t cp = s.cp, old = 0;
      if (g) {
        if (!group_ok(g->data)) return "throws";
        old = le16(g->data, 4);
        if (old + n > 0xffff) return "throws";
        grp = g->data.substr(0, 6 + 14 * old);
        put16(grp, 4, old + n);
        cp = g->codepage;
      } else grp = f.substr(0, 6);
      std::set<uint32_t> used;
      for (auto& kv : m) if (!kv.first.named[0] && kv.first.id[0] == itype && !kv.first.named[1] && kv.first.id[1] <= 0xffff) used.insert(kv.first.id[1]);
      std::vector<uint32_t> ids;
      if (s.mode == 0) { uint32_t x = used.empty() ? 0 : *used.rbegin(); while (ids.size() < n) ids.push_back(++x); }
      else for (uint32_t x = 1; ids.size() < n; ++x) if (!used.count(x)) ids.push_back(x);
      if (ids.back() > 0xffff) return "throws";
      for (uint32_t i = 0; i < n; ++i) {
        std::string e = f.substr(6 + 16 * i, 16), img = f.substr(le32(e, 12), le32(e, 8));
        if (icon) grp += e.substr(0, 12) + le(ids[i], 2);
        else {
          grp += le((unsigned char)e[0], 2) + le(2 * (unsigned char)e[1], 2) + le(0, 4) + le(img.size() + 4, 4) + le(ids[i], 2);
          img = e.substr(4, 4) + img;
        }
        m[mk(itype, ids[i], lang)] = ResLeaf{cp, img};
      }
      m[k] = ResLeaf{cp, grp};
      return "ok";
    }
    case RS_RM_ICON: case RS_RM_CUR: {
      const ResLeaf* g = leaf(m, k);
      if (!g || !group_ok(g->data)) return "throws";
      std::string d = g->data;
      for (uint32_t i = 0; i < le16(d, 4); ++i) m.erase(mk(s.kind == RS_RM_ICON ? 3 : 1, le16(d, 6 + 14 * i + 12), lang));
      m.erase(k);
      return "true";
    }
    case RS_VER: case RS_VER_EDIT: {
      VerSpec v = s.ver;
      if (s.kind == RS_VER_EDIT) {
        const ResLeaf* l = leaf(m, k);
        if (!l) return "throws";
        if (!decode_version(l->data, v)) {      // not a block the model understands: whatever the library did is kept
          const ResLeaf* a = leaf(after, k);
          if (a) m[k] = *a;
          return "?";
        }
        edit_model(v, Rng(s.seed));
      }
      const ResLeaf* a = leaf(after, k);
      size_t need = encode_version(v).size();
      VerSpec got;
      if (need > 0xffff) return "throws";
      if (need > 0xffff - 64 && (!a || !decode_version(a->data, got) || text(got) != text(v))) return "throws";
      if (!a || !decode_version(a->data, got)) { problem = "the stored version block is not well formed"; return "ok"; }
      if (text(got) != text(v)) problem = "the stored version block does not say what was written: " + diff(text(v), text(got));
      if (a->codepage != s.cp) problem = "wrong codepage of version block";
      m[k] = *a;
      return "ok";
    }
  }
  return "?";
}

// one object edited again and again, every edit with failing allocations and repeated after a failure
std::string version_object_problem(Rng r, const std::function<bool(const std::function<void()>&, const std::function<void()>&)>& faulted) {
  VerSpec v = rnd_ver(r);
  if (r.chance(1, 3)) { v.strings.clear(); if (r.chance(1, 2)) v.tr.clear(); }
  lang_string_values_map sv; translation_values_map tv;
  file_version_info f = to_lib(v);
  to_lib(v, sv, tv);
  int n = 1 + (int)r.below(6);
  for (int i = 0; i < n; ++i) {
    uint64_t seed = r.next();
    lang_string_values_map sc(sv); translation_values_map tc(tv); file_version_info fc(f);
    auto clean = [&] { Lib l; version_info_editor e(sc, tc); edit_lib(e, fc, Rng(seed), 1); };
    auto real = [&] { Lib l; version_info_editor e(sv, tv); edit_lib(e, f, Rng(seed), 1); };
    if (!faulted(clean, real)) real();
    edit_model(v, Rng(seed), 1);
    std::string want = text(v), c = text(from_lib(fc, sc, tc)), got = text(from_lib(f, sv, tv));
    if (c != want) return "an edit of version information gives something else: " + diff(want, c);
    if (got != want) return "an edit of version information repeated after an allocation failure gives something else: " + diff(want, got);
  }
  return "";
}

// ------------------------------------------------------------------ views
namespace {
struct Out { std::string r; };
template <class F> std::string ask(F f) {
  Lib l;
  try { return f(); } catch (const pe_exception&) { return "throws"; }
}
std::string leaf_text(const ResLeaf& l) { return fmt("cp=%u data=%zu:%016llx", l.codepage, l.data.size(), (unsigned long long)fnv(l.data)); }
std::string info_text(const resource_data_info& i) { return fmt("cp=%u data=%zu:%016llx", i.get_codepage(), i.get_data().size(), (unsigned long long)fnv(i.get_data())); }
template <class T> std::string list_text(std::vector<T> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += fmt("%u ", (unsigned)x); return s; }
std::string names_text(std::vector<std::wstring> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += t16(n16(x)) + "|"; return s; }
}

std::string view_problem(const resource_directory& root, const ResMap& m, Rng& r) {
  pe_resource_viewer v(root);
  std::set<uint32_t> types;
  std::set<std::u16string> roots;
  struct Ent { std::set<uint32_t> ids; std::set<std::u16string> names; };
  std::map<std::pair<std::u16string, uint32_t>, Ent> ent;   // named root: (name,0); id root: ("",id+1)
  std::map<ResKey, std::map<uint32_t, const ResLeaf*>> langs;
  for (auto& kv : m) {
    auto& k = kv.first;
    if (k.named[2]) return "";   // language by name: outside the manager's interface
    if (k.named[0]) roots.insert(k.name[0]); else types.insert(k.id[0]);
    auto& e = ent[k.named[0] ? std::make_pair(k.name[0], 0u) : std::make_pair(std::u16string(), k.id[0] + 1)];
    if (k.named[1]) e.names.insert(k.name[1]); else e.ids.insert(k.id[1]);
    ResKey b = k; b.id[2] = 0;
    langs[b][k.id[2]] = &kv.second;
  }
  auto want = [&](const char* what, const std::string& exp, const std::string& got) { return exp == got ? std::string() : std::string(what) + " gives " + got + ", expected " + exp; };
  std::string p;
#define CHECK(what, exp, expr) if (!(p = want(what, exp, ask([&]() -> std::string { return expr; }))).empty()) return p;
  {
    std::vector<uint32_t> t(types.begin(), types.end());
    CHECK("list_resource_types", list_text(t), list_text(v.list_resource_types()));
    for (uint32_t x = 0; x < 26; ++x) CHECK(fmt("resource_exists(%u)", x).c_str(), types.count(x) ? "1" : "0", v.resource_exists((RT)x) ? "1" : "0");
    for (auto& n : roots) CHECK("resource_exists(name)", "1", v.resource_exists(w(n)) ? "1" : "0");
    std::u16string no = u"no such name";
    CHECK("resource_exists(absent name)", "0", v.resource_exists(w(no)) ? "1" : "0");
    CHECK("get_resource_count(absent name)", "throws", fmt("%u", v.get_resource_count(w(no))));
    CHECK("list_resource_ids(absent name)", "throws", list_text(v.list_resource_ids(w(no))));
    for (uint32_t x = 0; x < 26; ++x) if (!types.count(x)) {
      CHECK("get_resource_count(absent type)", "throws", fmt("%u", v.get_resource_count((RT)x)));
      CHECK("list_resource_names(absent type)", "throws", names_text(v.list_resource_names((RT)x)));
      CHECK("get_resource_data_by_id(absent type)", "throws", info_text(v.get_resource_data_by_id((RT)x, 1, (uint32_t)0)));
      break;
    }
  }
  for (auto& e : ent) {
    bool named = e.first.second == 0;
    std::wstring rn = w(e.first.first);
    RT t = (RT)(named ? 0 : e.first.second - 1);
    if (!named && e.first.second > 31) continue;
    std::vector<uint32_t> ids(e.second.ids.begin(), e.second.ids.end());
    std::vector<std::wstring> names;
    for (auto& n : e.second.names) names.push_back(w(n));
    CHECK("list_resource_ids", list_text(ids), list_text(named ? v.list_resource_ids(rn) : v.list_resource_ids(t)));
    CHECK("list_resource_names", names_text(names), names_text(named ? v.list_resource_names(rn) : v.list_resource_names(t)));
    CHECK("get_resource_count", fmt("%zu", ids.size() + names.size()), fmt("%u", named ? v.get_resource_count(rn) : v.get_resource_count(t)));
  }
  size_t budget = 40, total = langs.size();
  for (auto& b : langs) {
    if (total > budget && !r.chance(budget, total)) continue;
    const ResKey& k = b.first;
    if (!k.named[0] && k.id[0] > 30) continue;
    std::wstring n0 = w(k.name[0]), n1 = w(k.name[1]);
    RT t = (RT)k.id[0];
    uint32_t id = k.id[1];
    std::vector<uint32_t> ll;
    for (auto& x : b.second) ll.push_back(x.first);
    auto list = [&]() { return k.named[0] ? (k.named[1] ? v.list_resource_languages(n0, n1) : v.list_resource_languages(n0, id)) : (k.named[1] ? v.list_resource_languages(t, n1) : v.list_resource_languages(t, id)); };
    auto by_lang = [&](uint32_t lang) { return k.named[0] ? (k.named[1] ? v.get_resource_data_by_name(lang, n0, n1) : v.get_resource_data_by_id(lang, n0, id)) : (k.named[1] ? v.get_resource_data_by_name(lang, t, n1) : v.get_resource_data_by_id(lang, t, id)); };
    auto by_idx = [&](uint32_t i) { return k.named[0] ? (k.named[1] ? v.get_resource_data_by_name(n0, n1, i) : v.get_resource_data_by_id(n0, id, i)) : (k.named[1] ? v.get_resource_data_by_name(t, n1, i) : v.get_resource_data_by_id(t, id, i)); };
    CHECK("get_language_count", fmt("%zu", ll.size()), fmt("%u", k.named[0] ? (k.named[1] ? v.get_language_count(n0, n1) : v.get_language_count(n0, id)) : (k.named[1] ? v.get_language_count(t, n1) : v.get_language_count(t, id))));
    CHECK("list_resource_languages", list_text(ll), list_text(list()));
    std::vector<uint32_t> order;
    { Lib l; order = list(); }
    for (size_t i = 0; i < order.size(); ++i) {
      std::string exp = leaf_text(*b.second.at(order[i]));
      CHECK((k.text() + ": resource data by language").c_str(), exp, info_text(by_lang(order[i])));
      CHECK((k.text() + ": resource data by index").c_str(), exp, info_text(by_idx((uint32_t)i)));
    }
    CHECK("resource data by index past the end", "throws", info_text(by_idx((uint32_t)order.size())));
    uint32_t none = 0x7777;
    if (!b.second.count(none)) CHECK("resource data of absent language", "throws", info_text(by_lang(none)));
  }
#undef CHECK
  return "";
}

// ------------------------------------------------------------------ typed views
namespace {
// the .ico/.cur file an independent reader makes of a group; "throws" when the group cannot be read; "?" when not judged
std::string ref_group(const ResMap& m, const ResKey& k, bool icon) {
  const ResLeaf* g = leaf(m, k);
  if (!g) return "throws";
  if (!group_ok(g->data)) return "throws";
  const std::string& d = g->data;
  uint32_t n = le16(d, 4), lang = k.id[2], off = 6 + 16 * n;
  std::string head = d.substr(0, 6), body;
  for (uint32_t i = 0; i < n; ++i) {
    std::string e = d.substr(6 + 14 * i, 14);
    const ResLeaf* im = leaf(m, mk(icon ? 3 : 1, le16(e, 12), lang));
    if (!im) return "throws";
    if (!icon && im->data.size() < 4) return "throws";
    if (le32(e, 8) != im->data.size()) return "?";
    std::string img = icon ? im->data : im->data.substr(4);
    if (icon) head += e.substr(0, 12) + le(off, 4);
    else {
      if (le16(e, 0) > 255 || le16(e, 2) > 511) return "?";
      head += le(le16(e, 0), 1) + le(le16(e, 2) / 2, 1) + le(0, 2) + im->data.substr(0, 4) + le(img.size(), 4) + le(off, 4);
    }
    off += (uint32_t)img.size();
    body += img;
  }
  return head + body;
}
std::string ref_single(const ResMap& m, uint32_t id, uint32_t lang, bool icon) {
  const ResLeaf* im = leaf(m, mk(icon ? 3 : 1, id, lang));
  int found = 0;
  std::string out;
  for (auto& kv : m) {
    if (kv.first.named[0] || kv.first.id[0] != (icon ? 14u : 12u) || kv.first.id[2] != lang) continue;
    if (!group_ok(kv.second.data)) return "?";
    const std::string& d = kv.second.data;
    for (uint32_t i = 0; i < le16(d, 4); ++i) {
      std::string e = d.substr(6 + 14 * i, 14);
      if (le16(e, 12) != id) continue;
      ++found;
      if (!im) continue;
      if (le32(e, 8) != im->data.size() || (!icon && (im->data.size() < 4 || le16(e, 0) > 255 || le16(e, 2) > 511))) return "?";
      if (icon) out = d.substr(0, 4) + le(1, 2) + e.substr(0, 12) + le(22, 4) + im->data;
      else out = d.substr(0, 4) + le(1, 2) + le(le16(e, 0), 1) + le(le16(e, 2) / 2, 1) + le(0, 2) + im->data.substr(0, 4) + le(im->data.size() - 4, 4) + le(22, 4) + im->data.substr(4);
    }
  }
  if (!im || !found) return "throws";
  return found == 1 ? out : "?";
}
std::string ref_bitmap(const ResLeaf* l) {
  if (!l || l->data.size() < 40) return "throws";
  uint32_t off = bmp_bits(l->data);
  if (!off) return "?";
  return "BM" + le(14 + l->data.size(), 4) + le(0, 4) + le(off, 4) + l->data;
}
bool sur(const std::u16string& s) { for (auto c : s) if (c >= 0xd800 && c < 0xe000) return true; return false; }
std::string ref_strings(const ResLeaf* l, uint32_t id) {
  if (!l) return "throws";
  std::string r;
  size_t p = 0;
  const std::string& d = l->data;
  std::map<uint32_t, std::u16string> m;
  for (uint32_t i = 0; i < 16; ++i) {
    if (p + 2 > d.size()) return "throws";
    uint32_t n = le16(d, p);
    p += 2;
    if (p + 2 * n > d.size()) return "throws";
    std::u16string s;
    for (uint32_t k = 0; k < n; ++k) s += (char16_t)le16(d, p + 2 * k);
    if (sur(s) || s.find(u'\0') != std::u16string::npos) return "?";
    if (n) m[(uint16_t)((id - 1) * 16 + i)] = s;
    p += 2 * n;
  }
  for (auto& x : m) r += fmt("%u=", x.first) + t16(x.second) + "\n";
  return r;
}
std::string ref_messages(const ResLeaf* l) {
  if (!l) return "throws";
  const std::string& d = l->data;
  if (d.size() < 4) return "throws";
  uint64_t nb = le32(d, 0);
  if (4 + 12 * nb > d.size()) return "throws";
  std::map<uint32_t, std::string> m;
  for (uint64_t b = 0; b < nb; ++b) {
    uint64_t lo = le32(d, 4 + 12 * b), hi = le32(d, 8 + 12 * b), off = le32(d, 12 + 12 * b);
    if (lo > hi || off > d.size()) return "throws";
    for (uint64_t id = lo; id <= hi; ++id) {
      if (off + 4 > d.size()) return "throws";
      uint32_t len = le16(d, off), fl = le16(d, off + 2);
      if (len < 4 || off + len > d.size()) return "throws";
      std::string t = d.substr(off + 4, len - 4);
      if (fl & 1) {
        if (len % 2) return "throws";
        std::u16string s;
        for (size_t i = 0; i < t.size(); i += 2) s += (char16_t)le16(t, i);
        if (sur(s)) return "?";
        while (!s.empty() && !s.back()) s.pop_back();    // padding is not part of the text
        t = "U" + t16(s);
      } else { while (!t.empty() && !t.back()) t.pop_back(); t = "A" + esc(t); }
      m.insert({(uint32_t)id, t});
      off += len;
    }
  }
  std::string r;
  for (auto& x : m) r += fmt("%u=", x.first) + x.second + "\n";
  return r;
}
std::string strings_text(const resource_string_list& l) { std::string r; for (auto& x : l) r += fmt("%u=", (unsigned)x.first) + t16(n16(x.second)) + "\n"; return r; }
std::string messages_text(const resource_message_list& l) {
  std::string r;
  for (auto& x : l) {
    const message_table_item& i = x.second;
    if (!(i.is_unicode() ? i.get_ansi_string().empty() : i.get_unicode_string().empty())) r += "<both strings>";
    message_table_item c(i), d;      // a copy which is given another string says only that one
    if (d.is_unicode() || !d.get_ansi_string().empty() || !d.get_unicode_string().empty()) r += "<new item is not empty>";
    c.set_string(std::wstring(L"w\x451\0", 3));
    if (!c.is_unicode() || c.get_unicode_string() != L"w\x451" || !c.get_ansi_string().empty()) r += "<set_string>";
    if (i.is_unicode() ? c.get_unicode_string() == i.get_unicode_string() && i.get_unicode_string() != L"w\x451" : i.get_ansi_string() != message_table_item(x.second).get_ansi_string()) r += "<copy>";
    c.set_string(std::string("ansi\0\0", 6));
    if (c.is_unicode() || c.get_ansi_string() != "ansi" || !c.get_unicode_string().empty()) r += "<set_string>";
  }
  for (auto& x : l) r += fmt("%u=", x.first) + (x.second.is_unicode() ? "U" + t16(n16(x.second.get_unicode_string())) : "A" + esc(x.second.get_ansi_string())) + "\n";
  return r;
}
}

std::string typed_problem(const resource_directory& root, const ResMap& m, Rng& r) {
  pe_resource_viewer v(root);
  for (auto& kv : m) if (kv.first.named[2]) return "";
  std::string p;
  auto shorten = [](const std::string& s) { return s.size() < 200 ? (s == "throws" ? s : hexs(s, 80)) : fmt("%zu bytes ", s.size()) + hexs(s, 64); };
  auto judge = [&](const std::string& what, const std::string& exp, const std::string& got) {
    if (exp == "?" || exp == got) return false;
    p = what + " gives " + shorten(got) + ", expected " + shorten(exp);
    return true;
  };
#define CHECK(what, exp, expr) if (judge(what, exp, ask([&]() -> std::string { return expr; }))) return p;
  resource_cursor_icon_reader ci(v);
  resource_bitmap_reader br(v);
  resource_string_table_reader sr(v);
  resource_message_list_reader mr(v);
  resource_version_info_reader vr(v);
  size_t total = 0;
  for (auto& kv : m) { uint32_t t = kv.first.named[0] ? 0 : kv.first.id[0]; if (t == 1 || t == 2 || t == 3 || t == 6 || t == 11 || t == 12 || t == 14 || t == 16) ++total; }
  for (auto& kv : m) {
    const ResKey& k = kv.first;
    if (k.named[0]) continue;
    uint32_t t = k.id[0], id = k.id[1], lang = k.id[2];
    if (!(t == 1 || t == 2 || t == 3 || t == 6 || t == 11 || t == 12 || t == 14 || t == 16)) continue;
    if (total > 30 && !r.chance(30, (unsigned)total)) continue;
    std::wstring n = w(k.name[1]);
    uint32_t idx = 0;
    {
      Lib l;
      auto ll = k.named[1] ? v.list_resource_languages((RT)t, n) : v.list_resource_languages((RT)t, id);
      idx = (uint32_t)(std::find(ll.begin(), ll.end(), lang) - ll.begin());
    }
    std::string at = k.text();
    probe(fmt("typed:%u", t));
    if (t == 2) {
      std::string e = ref_bitmap(&kv.second);
      if (k.named[1]) { CHECK("bitmap by name " + at, e, br.get_bitmap_by_name(lang, n)); CHECK("bitmap by name, index " + at, e, br.get_bitmap_by_name(n, idx)); }
      else { CHECK("bitmap by id " + at, e, br.get_bitmap_by_id_lang(lang, id)); CHECK("bitmap by id, index " + at, e, br.get_bitmap_by_id(id, idx)); }
    } else if (t == 14 || t == 12) {
      std::string e = ref_group(m, k, t == 14);
      if (t == 14) {
        if (k.named[1]) { CHECK("icon by name " + at, e, ci.get_icon_by_name(lang, n)); CHECK("icon by name, index " + at, e, ci.get_icon_by_name(n, idx)); }
        else { CHECK("icon by id " + at, e, ci.get_icon_by_id_lang(lang, id)); CHECK("icon by id, index " + at, e, ci.get_icon_by_id(id, idx)); }
      } else {
        if (k.named[1]) { CHECK("cursor by name " + at, e, ci.get_cursor_by_name(lang, n)); CHECK("cursor by name, index " + at, e, ci.get_cursor_by_name(n, idx)); }
        else { CHECK("cursor by id " + at, e, ci.get_cursor_by_id_lang(lang, id)); CHECK("cursor by id, index " + at, e, ci.get_cursor_by_id(id, idx)); }
      }
    } else if ((t == 3 || t == 1) && !k.named[1]) {
      std::string e = ref_single(m, id, lang, t == 3);
      if (t == 3) { CHECK("single icon " + at, e, ci.get_single_icon_by_id_lang(lang, id)); CHECK("single icon by index " + at, e, ci.get_single_icon_by_id(id, idx)); }
      else { CHECK("single cursor " + at, e, ci.get_single_cursor_by_id_lang(lang, id)); CHECK("single cursor by index " + at, e, ci.get_single_cursor_by_id(id, idx)); }
    } else if (t == 6 && !k.named[1] && id >= 1 && id <= 4096) {
      std::string e = ref_strings(&kv.second, id);
      CHECK("string table " + at, e, strings_text(sr.get_string_table_by_id_lang(lang, id)));
      CHECK("string table by index " + at, e, strings_text(sr.get_string_table_by_id(id, idx)));
      if (e != "throws" && e != "?") {
        uint32_t sid = (id - 1) * 16 + (uint32_t)r.below(16);
        std::string pre = fmt("%u=", sid), one = "throws";
        size_t q = e.compare(0, pre.size(), pre) == 0 ? 0 : e.find("\n" + pre);
        if (q != std::string::npos) { if (q) ++q; one = e.substr(q, e.find('\n', q) - q); }
        CHECK("string " + fmt("%u", sid), one, fmt("%u=", sid) + t16(n16(sr.get_string_by_id_lang(lang, (uint16_t)sid))));
        CHECK("string by index " + fmt("%u", sid), one, fmt("%u=", sid) + t16(n16(sr.get_string_by_id((uint16_t)sid, idx))));
      }
    } else if (t == 11 && !k.named[1]) {
      std::string e = ref_messages(&kv.second);
      CHECK("message table " + at, e, messages_text(mr.get_message_table_by_id_lang(lang, id)));
      CHECK("message table by index " + at, e, messages_text(mr.get_message_table_by_id(id, idx)));
    } else if (t == 16 && !k.named[1] && id == 1) {
      VerSpec s;
      bool ok = decode_version(kv.second.data, s);
      std::string e = ok ? text(s) : "?";
      CHECK("version info " + at, e, ([&] { lang_string_values_map a; translation_values_map b; file_version_info f = vr.get_version_info_by_lang(a, b, lang); return text(from_lib(f, a, b)); }()));
      CHECK("version info by index " + at, e, ([&] { lang_string_values_map a; translation_values_map b; file_version_info f = vr.get_version_info(a, b, idx); return text(from_lib(f, a, b)); }()));
      if (ok) {
        // the viewer agrees with the same strings
        lang_string_values_map a; translation_values_map b;
        to_lib(s, a, b);
        version_info_viewer vw(a, b);
        std::u16string prop = a16(kProps[r.below(8)]);
        std::string exp = "throws";
        if (!s.strings.empty()) {
          auto i = table_of(s.strings, u"041904b0");
          if (i == s.strings.end()) i = s.strings.begin();
          auto j = i->second.find(prop);
          if (j != i->second.end()) exp = "=" + t16(j->second);
        }
        CHECK("version property " + t16(prop), exp, "=" + t16(n16(vw.get_property(w(prop), L"", true))));
        {
          // the named getters and a specific translation
          std::wstring tr;
          const std::map<std::u16string, std::u16string>* tab = nullptr;
          if (!s.strings.empty()) {
            auto i = s.strings.begin();
            std::advance(i, r.below(s.strings.size()));
            if (r.chance(1, 2)) {
              auto t = i->first;
              if (r.chance(1, 2)) for (auto& c : t) { if (r.chance(1, 2)) c = c >= u'A' && c <= u'F' ? c + 32 : c >= u'a' && c <= u'f' ? c - 32 : c; }
              i = table_of(s.strings, t);
              tr = w(t);
            } else { i = table_of(s.strings, u"041904b0"); if (i == s.strings.end()) i = s.strings.begin(); }
            tab = &i->second;
          }
          std::string want, got;
          for (auto pr : kProps) { if (tab && tab->count(a16(pr))) want += t16(tab->at(a16(pr))); want += "|"; }
          CHECK("named version properties", want, ([&] {
            std::string o;
            for (auto pr : kProps) {
              std::string q = pr;
              std::wstring v = q == "CompanyName" ? vw.get_company_name(tr) : q == "FileDescription" ? vw.get_file_description(tr) : q == "FileVersion" ? vw.get_file_version(tr) : q == "InternalName" ? vw.get_internal_name(tr) : q == "LegalCopyright" ? vw.get_legal_copyright(tr)
                : q == "OriginalFilename" ? vw.get_original_filename(tr) : q == "ProductName" ? vw.get_product_name(tr) : vw.get_product_version(tr);
              Seam sm;
              o += t16(n16(v)) + "|";
            }
            return o;
          }()));
          CHECK("property of an absent translation", "throws", t16(n16(vw.get_property(L"CompanyName", L"00000000x", true))));
          CHECK("property of an absent translation, quiet", "", t16(n16(vw.get_property(L"CompanyName", L"00000000x"))));
        }
        {
          file_version_info f = to_lib(s);
          auto vs = [](uint32_t ms, uint32_t ls) { return fmt("%u.%u.%u.%u", ms >> 16, ms & 0xffff, ls >> 16, ls & 0xffff); };
          CHECK("version strings", vs(s.fixed[0], s.fixed[1]) + " " + vs(s.fixed[2], s.fixed[3]), f.get_file_version_string<char>() + " " + f.get_product_version_string<char>());
          CHECK("wide version string", vs(s.fixed[0], s.fixed[1]), t16(n16(f.get_file_version_string<wchar_t>())));
          uint32_t fl = s.fixed[4];
          CHECK("version flags", fmt("%d%d%d%d%d%d", !!(fl & 1), !!(fl & 2), !!(fl & 4), !!(fl & 8), !!(fl & 32), !!(fl & 16)), fmt("%d%d%d%d%d%d", f.is_debug(), f.is_prerelease(), f.is_patched(), f.is_private_build(), f.is_special_build(), f.is_info_inferred()));
        }
        std::string trs;
        for (auto& x : b) trs += fmt("%04x%04x ", x.first, x.second);
        CHECK("translation list", trs, ([&] { std::string o; for (auto& x : vw.get_translation_list()) o += t16(n16(x)) + " "; return o; }()));
      }
    }
  }
  // things that are not there
  CHECK("icon of absent group", "throws", ci.get_icon_by_id_lang(0x7777, 0xfffe));
  CHECK("single cursor that is absent", "throws", ci.get_single_cursor_by_id_lang(0x7777, 0xfffe));
#undef CHECK
  return "";
}

}  // namespace sim
