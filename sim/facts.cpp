#include "facts.h"

namespace sim {

const std::vector<std::string> kComponents = {"imp", "exp", "rel", "tls", "cfg", "bnd", "res", "dbg", "exc", "net", "rich"};

std::string esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else r += fmt("\\x%02x", c);
  }
  return r + "\"";
}
static std::string esc16(const std::u16string& s) {
  std::string r = "u\"";
  for (char16_t c : s) {
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else r += fmt("\\u%04x", (unsigned)c);
  }
  return r + "\"";
}
static std::string blob(const std::string& d) { return fmt("len=%zu hash=%016llx", d.size(), (unsigned long long)fnv(d)); }

std::string text(const std::vector<ImpLib>& v, bool with_iat) {
  std::string r = fmt("libs=%zu\n", v.size());
  for (auto& l : v) {
    r += "lib " + esc(l.name) + fmt(" ts=%x n=%zu\n", l.ts, l.f.size());
    for (auto& f : l.f) {
      r += f.named ? fmt("  name hint=%x ", f.hint) + esc(f.name) : fmt("  ord %u", f.ord);
      if (with_iat && l.has_orig) r += fmt(" iat=%llx", (unsigned long long)f.iat);
      r += "\n";
    }
  }
  return r;
}
std::string text(const ExpInfo& e) {
  if (!e.present) return "absent";
  std::string r = "info " + esc(e.name) + fmt(" chars=%x ts=%x ver=%u.%u base=%u nf=%u nn=%u\n", e.chars, e.ts, e.major, e.minor, e.base, e.nfuncs, e.nnames);
  for (auto& f : e.f) {
    r += fmt("ord=%u", f.ord);
    if (!f.fwd) r += fmt(" rva=%x", f.rva);
    if (f.named) r += " name=" + esc(f.name);
    if (f.fwd) r += " fwd=" + esc(f.fwd_name);
    r += "\n";
  }
  return r;
}
std::string text(const std::vector<RelTable>& v) {
  std::string r = fmt("tables=%zu\n", v.size());
  for (auto& t : v) {
    r += fmt("table %x n=%zu:", t.rva, t.items.size());
    for (auto i : t.items) r += fmt(" %x", i);
    r += "\n";
  }
  return r;
}
std::string text(const TlsFacts& t) {
  if (!t.present) return "absent";
  std::string r = fmt("start=%x end=%x index=%x cbs=%x zero=%x chars=%x raw ", t.start, t.end, t.index, t.cbs, t.zero, t.chars) + blob(t.raw) + "\ncb";
  for (auto c : t.cb) r += fmt(" %x", c);
  return r + "\n";
}
std::string text(const CfgFacts& c) {
  if (!c.present) return "absent";
  typedef unsigned long long U;
  std::string r = fmt("ts=%x ver=%u.%u gfc=%x gfs=%x cst=%x phf=%x csd=%x\ndcf=%llx dct=%llx lpt=%llx mas=%llx vmt=%llx pam=%llx edit=%llx cookie=%llx seht=%llx sehc=%llx\nseh",
      c.ts, c.major, c.minor, c.gfc, c.gfs, c.cst, c.phf, c.csd, (U)c.dcf, (U)c.dct, (U)c.lpt, (U)c.mas, (U)c.vmt, (U)c.pam, (U)c.edit, (U)c.cookie, (U)c.seht, (U)c.sehc);
  for (auto x : c.seh) r += fmt(" %x", x);
  r += "\nlock";
  for (auto x : c.lock) r += fmt(" %x", x);
  return r + "\n";
}
std::string text(const std::vector<BndMod>& v) {
  std::string r = fmt("mods=%zu\n", v.size());
  for (auto& m : v) {
    r += "mod " + esc(m.name) + fmt(" ts=%x refs=%zu\n", m.ts, m.refs.size());
    for (auto& f : m.refs) r += "  ref " + esc(f.name) + fmt(" ts=%x\n", f.ts);
  }
  return r;
}
std::string ResKey::text() const {
  std::string r;
  for (int i = 0; i < 3; ++i) {
    if (i) r += "/";
    r += named[i] ? esc16(name[i]) : fmt("#%u", id[i]);
  }
  return r;
}
bool ResKey::operator<(const ResKey& o) const {
  for (int i = 0; i < 3; ++i) {
    if (named[i] != o.named[i]) return named[i];
    if (named[i]) { if (name[i] != o.name[i]) return name[i] < o.name[i]; }
    else if (id[i] != o.id[i]) return id[i] < o.id[i];
  }
  return false;
}
std::string text(const ResMap& m) {
  std::string r = fmt("leaves=%zu\n", m.size());
  for (auto& kv : m) r += kv.first.text() + fmt(" cp=%u ", kv.second.codepage) + blob(kv.second.data) + "\n";
  return r;
}
std::string stripz(std::string s) {
  size_t n = s.size();
  while (n && !s[n - 1]) --n;
  s.resize(n);
  return s;
}

static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
std::string diff(const std::string& a, const std::string& b) {
  if (a == b) return "";
  auto x = lines(a), y = lines(b);
  for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) {
    std::string p = i < x.size() ? x[i] : "<end>", q = i < y.size() ? y[i] : "<end>";
    if (p != q) return fmt("line %zu: expected [%s] got [%s]", i, p.substr(0, 300).c_str(), q.substr(0, 300).c_str());
  }
  return "texts differ";
}
std::string diff(const KV& a, const KV& b) {
  std::string r;
  int n = 0;
  for (auto& kv : a) {
    auto i = b.find(kv.first);
    if (i == b.end()) r += kv.first + " missing; ", ++n;
    else if (i->second != kv.second) r += kv.first + ": expected " + kv.second + " got " + i->second + "; ", ++n;
    if (n > 5) break;
  }
  for (auto& kv : b)
    if (!a.count(kv.first) && n++ < 6) r += kv.first + " unexpected; ";
  return r;
}

}  // namespace sim
