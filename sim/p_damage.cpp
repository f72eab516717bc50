// C14: damaged files are refused safely by every reader, viewer and editor.
#include "exec.h"
#include <sstream>
#include "apicalls.h"
using namespace pe_bliss;

namespace sim {

namespace {
const uint32_t kExtreme[] = {0, 1, 2, 3, 4, 7, 8, 0x10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000008, 0x80000010, 0xfffffff8, 0xfffffffc, 0xffffffff, 0x7ffffffc};

// a value near something that matters in this file
uint32_t interesting(const RefPe& p, uint32_t old, Rng& r) {
  static const int32_t d[] = {0, 0, 0, 1, -1, 2, -2, 4, -4, 8, -8, 12, -12, 16, -16, 20, -20, 24, 28, -28, 40, -40};
  int32_t k = d[r.below(22)];
  switch (r.below(10)) {
    case 0: case 1: case 2: return kExtreme[r.below(24)];
    case 3: return old + k;
    case 4: return (uint32_t)r.next();
    case 5: case 6:
      if (!p.secs.empty()) {
        auto& s = p.secs[r.below(p.secs.size())];
        switch (r.below(4)) {
          case 0: return s.va + k;
          case 1: return s.va + s.rawsize + k;
          case 2: return s.va + alup<uint32_t>(std::max(s.vsize, 1u), std::max(p.salign, 1u)) + k;
          default: return s.rawptr + k;
        }
      }
      return 0x1000 + k;
    case 7: if (!p.dirs.empty()) { auto& q = p.dirs[r.below(p.dirs.size())]; return q.first + (r.chance(1, 3) ? q.second : 0) + k; } return k;
    case 8: return (uint32_t)p.bytes.size() + k;
    default: return (uint32_t)(old ^ (1u << r.below(32)));
  }
}
int64_t file_off(const RefPe& p, uint64_t rva) {
  for (auto& s : p.secs)
    if (rva >= s.va && rva < (uint64_t)s.va + s.rawsize && s.rawptr + (rva - s.va) < p.bytes.size()) return (int64_t)(s.rawptr + (rva - s.va));
  return -1;
}
void put_any(std::string& b, uint64_t at, uint32_t v, int w) {
  for (int i = 0; i < w; ++i) if (at + i < b.size()) b[at + i] = (char)(v >> (8 * i));
}
uint32_t get_any(const std::string& b, uint64_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) if (at + i < b.size()) v |= (uint32_t)(unsigned char)b[at + i] << (8 * i); return v; }

// One damage step. Structures are located in the undamaged file `p`.
const char* kDamage[] = {"truncate", "truncate-at-boundary", "bit-flips", "lost-sector", "swapped-sectors", "foreign-sector", "header-field", "section-field", "directory-entry", "directory-field", "directory-moved", "pointed-field", "resource-leaf", "fill", "appended", "two-bytes", "debug-payload", "resource-leaf-size"};
const int kDamages = 18;
std::string damage_once(std::string b, const RefPe& p, int how, Rng& r) {
  if (b.empty()) return b;
  size_t n = b.size(), head = std::min<size_t>(n, p.sec_off + p.secs.size() * 40 + 16);
  auto dirs = [&] { std::vector<unsigned> v; for (unsigned i = 0; i < p.dirs.size(); ++i) if (p.dirs[i].first) v.push_back(i); return v; };
  auto span = [&](unsigned d, uint64_t& at) -> bool {   // a random field inside directory d
    static const uint32_t len[] = {0x28, 0x40, 0x40, 0x60, 0, 0x60, 0x70, 0, 0, 0x28, 0x60, 0x60, 0x40, 0x20, 0x48, 0};
    uint32_t l = std::max<uint32_t>(d < 16 ? len[d] : 0, std::min<uint32_t>(p.dirs[d].second, 600));
    if (!l) l = 16;
    int64_t o = file_off(p, (uint64_t)p.dirs[d].first + (r.chance(1, 8) ? r.below(l) : r.below(l / 4 + 1) * 4));
    if (o < 0) return false;
    at = (uint64_t)o;
    return true;
  };
  switch (how) {
    case 0: b.resize(r.below(n + 1)); break;
    case 1: {
      std::vector<uint64_t> v{p.lfanew, p.nt_off, p.opt_off, p.sec_off, head};
      for (auto& s : p.secs) { v.push_back(s.rawptr); v.push_back((uint64_t)s.rawptr + s.rawsize); }
      for (unsigned d : dirs()) { int64_t o = file_off(p, p.dirs[d].first); if (o >= 0) v.push_back((uint64_t)o); }
      uint64_t at = v[r.below(v.size())] + r.below(48);
      at -= std::min<uint64_t>(at, 24);
      b.resize(std::min<uint64_t>(at, n));
      break;
    }
    case 2: for (int i = 0, k = 1 + (int)r.below(6); i < k; ++i) b[r.chance(1, 2) ? r.below(head) : r.below(n)] ^= (char)(1 << r.below(8)); break;
    case 3: { uint64_t s = r.below(n / 512 + 1) * 512; for (uint64_t i = s; i < s + 512 && i < n; ++i) b[i] = 0; break; }
    case 4: { uint64_t s = r.below(n / 512) * 512, t = r.below(n / 512) * 512; for (uint64_t i = 0; i < 512; ++i) if (s + i < n && t + i < n) std::swap(b[s + i], b[t + i]); break; }
    case 5: { std::string o = base_image(100 + (int)r.below(64), r.next() >> 20); uint64_t s = r.below(n / 512 + 1) * 512, t = r.chance(1, 2) ? s : r.below(o.size() / 512 + 1) * 512; for (uint64_t i = 0; i < 512; ++i) if (s + i < n && t + i < o.size()) b[s + i] = o[t + i]; break; }
    case 6: { uint64_t at = r.chance(1, 8) ? r.below(64) : p.lfanew + r.below(p.nt_size + 8); int w = r.chance(1, 3) ? 2 : 4; put_any(b, at & ~(uint64_t)1, interesting(p, get_any(b, at & ~(uint64_t)1), r), w); break; }
    case 7: if (!p.secs.empty()) { uint64_t at = p.sec_off + r.below(p.secs.size()) * 40 + (r.chance(1, 6) ? r.below(40) : 8 + r.below(5) * 4); put_any(b, at, interesting(p, get_any(b, at), r), 4); } break;
    case 8: { uint64_t at = p.sec_off - (p.dirs.size() * 8) + r.below(p.dirs.size() * 2 + 1) * 4; put_any(b, at, interesting(p, get_any(b, at), r), 4); break; }
    case 9: { auto v = dirs(); uint64_t at; if (v.empty() || !span(v[r.below(v.size())], at)) break; put_any(b, at, interesting(p, get_any(b, at), r), r.chance(1, 3) ? 2 : 4); break; }
    case 10: {   // a directory placed right before the end of a section's raw or virtual data
      auto v = dirs();
      if (v.empty() || p.secs.empty()) break;
      unsigned d = v[r.below(v.size())];
      auto& s = p.secs[r.below(p.secs.size())];
      uint32_t end = r.chance(1, 2) ? s.va + s.rawsize : s.va + alup<uint32_t>(std::max(s.vsize, 1u), std::max(p.salign, 1u));
      uint32_t len = 1 + (uint32_t)r.below(80);
      uint32_t to = end - len;
      if (r.chance(1, 2)) {   // with its content
        int64_t from = file_off(p, p.dirs[d].first), dst = file_off(p, to);
        for (uint32_t i = 0; from >= 0 && dst >= 0 && i < len; ++i) if (from + i < (int64_t)std::min(n, p.bytes.size()) && dst + i < (int64_t)n) b[dst + i] = p.bytes[from + i];
      }
      put_any(b, p.sec_off - p.dirs.size() * 8 + d * 8, to, 4);
      if (r.chance(1, 3)) put_any(b, p.sec_off - p.dirs.size() * 8 + d * 8 + 4, len, 4);
      break;
    }
    case 11: {   // follow a pointer out of a directory and damage what it points at
      auto v = dirs();
      uint64_t at;
      if (v.empty() || !span(v[r.below(v.size())], at)) break;
      for (int hop = 0; hop < 3; ++hop) {
        uint32_t x = get_any(p.bytes, at);
        if (x >= p.image_base && p.image_base) x -= (uint32_t)p.image_base;
        int64_t o = file_off(p, x);
        if (o < 0 && p.dir(2).first) o = file_off(p, p.dir(2).first + (x & 0x7fffffff));
        if (o < 0) break;
        at = (uint64_t)o + r.below(16) * 4;
        if (r.chance(1, 2)) break;
      }
      put_any(b, at, interesting(p, get_any(b, at), r), 1 << r.below(3));
      break;
    }
    case 12: {   // inside resource data: version blocks, string and message tables, bitmaps, icon groups
      ResMap m;
      std::string err;
      if (!p.dir(2).first || !p.resource_map(m, err) || m.empty()) break;
      auto i = m.begin();
      std::advance(i, r.below(m.size()));
      if (i->second.data.empty()) break;
      size_t at = p.bytes.find(i->second.data);
      if (at == std::string::npos) break;
      for (int k = 0, c = 1 + (int)r.below(3); k < c; ++k) {
        uint64_t o = at + (r.chance(1, 2) ? r.below(std::min<size_t>(i->second.data.size(), 48)) : r.below(i->second.data.size()));
        if (!r.chance(1, 6)) o &= ~(uint64_t)1;
        static const uint32_t v[] = {0, 1, 2, 3, 4, 5, 6, 0x10, 0x20, 0x7f, 0xff, 0x7fff, 0x8000, 0xfffe, 0xffff};
        uint32_t old = get_any(b, o) & 0xffff;
        put_any(b, o, r.chance(1, 2) ? v[r.below(15)] : r.chance(1, 2) ? old + (uint32_t)r.below(9) - 4 : (uint32_t)r.next(), r.chance(1, 4) ? 4 : 2);
      }
      break;
    }
    case 13: { uint64_t s = r.below(n), l = 1 + r.below(64); char c = r.chance(1, 2) ? (char)0xff : (char)r.next(); for (uint64_t i = s; i < s + l && i < n; ++i) b[i] = c; break; }
    case 14: b += std::string(1 + r.below(700), (char)r.next()); break;
    case 15: { uint64_t at = r.below(n / 2) * 2; put_any(b, at, interesting(p, get_any(b, at), r), 2); break; }
    case 16: {   // debug records: payloads are found by file offset
      if (!p.dir(6).first) break;
      std::vector<uint64_t> ents;
      for (uint32_t i = 0; i < 40 && i * 28 + 28 <= p.dir(6).second; ++i) {
        int64_t o = file_off(p, (uint64_t)p.dir(6).first + i * 28);
        if (o >= 0 && get_any(p.bytes, o + 16) && get_any(p.bytes, o + 24) && (uint64_t)get_any(p.bytes, o + 24) + get_any(p.bytes, o + 16) <= n) ents.push_back(o);
      }
      if (ents.empty()) break;
      uint64_t e = ents[r.below(ents.size())];
      uint64_t at = get_any(b, e + 24), size = get_any(b, e + 16);
      uint32_t type = get_any(b, e + 12);
      if (at >= n || size > n) break;
      if (type == 1 && r.chance(3, 4)) {
        uint64_t cnt = get_any(b, at), first = get_any(b, at + 4);
        if (cnt > 200 || first > n) { put_any(b, at + (r.chance(1, 2) ? 0 : 4), interesting(p, 0, r), 4); break; }
        uint64_t i = cnt ? r.chance(1, 2) ? cnt - 1 - r.below(std::min<uint64_t>(cnt, 3)) : r.below(cnt) : 0, s = at + first + i * 18;
        switch (r.below(8)) {
          case 0: put_any(b, at, (uint32_t)(cnt + r.below(5) - 2), 4); break;
          case 1: put_any(b, at + 4, (uint32_t)(first + r.below(41) - 20), 4); break;
          case 2: put_any(b, e + 16, (uint32_t)(first + (cnt - r.below(2)) * 18 + (r.chance(1, 2) ? 0 : r.below(37) - 18)), 4); break;   // the payload ends with the table
          case 3: put_any(b, s + 17, (uint32_t)(r.chance(1, 2) ? cnt - i - 1 + r.below(3) : r.below(6)), 1); break;
          case 4: put_any(b, s + 16, r.chance(1, 2) ? 0x67 : (uint32_t)(2 + r.below(2)), 1); break;
          case 5: put_any(b, e + 16, (uint32_t)(first + cnt * 18), 4); put_any(b, s + 16, 0x67, 1); put_any(b, s + 17, (uint32_t)(cnt - i - r.below(2) + r.below(2)), 1); break;
          case 6: put_any(b, s, 0, 4); put_any(b, s + 4, (uint32_t)(r.chance(1, 2) ? size - first - cnt * 18 + r.below(5) - 2 : interesting(p, get_any(b, s + 4), r)), 4); break;
          default: if (size > first + cnt * 18) b[at + size - 1] = 'x'; put_any(b, s, 0, 4); break;   // the last name is not terminated
        }
        break;
      }
      static const uint32_t edge[] = {0, 1, 4, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 26, 31, 32, 33};
      switch (r.below(7)) {
        case 0: put_any(b, e + 16, edge[r.below(20)], 4); break;
        case 1: put_any(b, e + 16, (uint32_t)(size - r.below(6)), 4); break;
        case 2: put_any(b, e + 24, (uint32_t)(n - size + r.below(9) - 4), 4); break;                      // near the end of the file
        case 3: put_any(b, e + 12, 1 + (uint32_t)r.below(11), 4); break;                                   // read as another kind
        case 4: for (uint64_t k = at + (r.chance(1, 2) ? 24 : 12); k < at + size && k < n; ++k) if (!b[k]) b[k] = 'y'; break;   // no terminators
        case 5: { uint64_t o = at + r.below(std::min<uint64_t>(size, 32)); put_any(b, o, r.chance(1, 2) ? edge[r.below(20)] : (uint32_t)(size + r.below(5) - 2), 4); break; }
        default: put_any(b, e + r.below(7) * 4, interesting(p, get_any(b, e), r), 4); break;
      }
      break;
    }
    case 17: {   // the stated size of a resource cuts its content
      ResMap m;
      std::string err;
      if (!p.dir(2).first || !p.resource_map(m, err) || m.empty()) break;
      auto i = m.begin();
      for (int k = 0; k < 4; ++k) {      // rather one of the kinds the library takes apart
        i = m.begin();
        std::advance(i, r.below(m.size()));
        if (!i->first.named[0] && (i->first.id[0] == 6 || i->first.id[0] == 11 || i->first.id[0] == 12 || i->first.id[0] == 14 || i->first.id[0] == 16)) break;
      }
      size_t at = p.bytes.find(i->second.data), len = i->second.data.size();
      if (i->second.data.empty() || at == std::string::npos) break;
      for (size_t o = p.bytes.size() - 16; o > 0; --o)   // its data entry
        if (get_any(p.bytes, o + 4) == len && get_any(p.bytes, o + 8) == i->second.codepage && file_off(p, get_any(p.bytes, o)) == (int64_t)at) {
          uint32_t to = (uint32_t)(r.chance(1, 3) ? len - std::min<uint64_t>(len, 1 + r.below(12)) : r.chance(1, 3) ? r.below(len + 1) : r.chance(1, 2) ? r.below(std::min<uint64_t>(len, 64) + 1) : len + r.below(20));
          // often exactly where a record of its kind starts
          const std::string& d = i->second.data;
          std::vector<size_t> rec;
          if (!i->first.named[0]) {
            size_t q = 0;
            auto w16 = [&](size_t x) { return (size_t)get_any(d, x) & 0xffff; };
            switch (i->first.id[0]) {
              case 6: for (int k = 0; k < 16 && q + 2 <= len; ++k) { rec.push_back(q); rec.push_back(q + 2); q += 2 + 2 * w16(q); } break;
              case 11:
                for (size_t k = 0, nb = get_any(d, 0); k < nb && 16 + 12 * k <= len; ++k) { rec.push_back(4 + 12 * k); if (!k) q = get_any(d, 12); }
                for (int k = 0; k < 40 && q + 4 <= len; ++k) { rec.push_back(q); rec.push_back(q + 4); if (w16(q) < 4) break; q += w16(q); }
                break;
              case 12: case 14: for (q = 6; q <= len; q += 14) rec.push_back(q); break;
              case 16: for (q = 0; q + 6 <= len && rec.size() < 200; q += 4) if (w16(q) >= 6 && q + w16(q) <= len) rec.push_back(q + w16(q)); break;
            }
          }
          if (!rec.empty() && r.chance(2, 3)) to = (uint32_t)(r.pick(rec) + (r.chance(1, 3) ? r.below(4) : 0));
          put_any(b, o + 4, to, 4);
          break;
        }
      break;
    }
  }
  return b;
}

// an image with a long chain of nested resource directories
std::string chain_image(uint64_t seed, uint32_t levels) {
  std::string b = base_image(100 + (int)(seed % 64), seed), out;
  SimBuf in(&b, nullptr, IoCfg());
  std::istream is(&in);
  pe_base pe(pe_factory::create_pe(is));
  std::string d;
  for (uint32_t i = 0; i < levels; ++i) {
    std::string e(24, '\0');
    put16(e, 14, 1);
    put32(e, 16, 1 + i % 3);
    put32(e, 20, i + 1 < levels ? 0x80000000u | (i + 1) * 24 : levels * 24);
    d += e;
  }
  std::string leaf(16, '\0');
  d += leaf;
  section s;
  s.set_name(".chain");
  s.set_raw_data(d);
  uint32_t va = pe.add_section(s).get_virtual_address();
  put32(d, levels * 24, va);
  put32(d, levels * 24 + 4, 4);
  pe.get_image_sections().back().set_raw_data(d);
  pe.set_directory_rva(2, va);
  pe.set_directory_size(2, (uint32_t)d.size());
  std::ostringstream os;
  rebuild_pe(pe, os);
  return os.str();
}
}  // namespace

static void gen14(Rng& r, Plan& p, bool th) {
  Op& im = p.add("image");
  pick_image(r, im);
  if (r.chance(1, 40)) im.set("chain", (int64_t)(1 + r.below(th ? 60000 : 20000)));
  int n = r.chance(1, 4) ? 1 : 1 + (int)r.below(th ? 8 : 5);
  std::vector<const char*> focus;   // readers of what was damaged
  for (int i = 0; i < n; ++i) {
    static const int weighted[] = {0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 9, 9, 9, 10, 10, 10, 11, 11, 11, 12, 12, 12, 12, 13, 14, 15, 16, 16, 16, 17, 17};
    int how = weighted[r.below(33)];
    p.add("damage").set("how", how).set("seed", (int64_t)(r.next() >> 20));
    if (how == 16) focus.push_back("read-dbg");
    if ((how == 12 || how == 17) && r.chance(2, 3)) { static const char* c[] = {"resource-views", "resource-typed-views", "resource-steps", "read-res"}; focus.push_back(c[r.below(4)]); if (r.chance(1, 2)) focus.push_back("resource-typed-views"); }
  }
  if (r.chance(1, 3)) p.add("file").set("k", r.below(file_calls().size())).set("seed", (int64_t)(r.next() >> 20));
  p.add("open").set("mem", r.chance(1, 6)).set("dbg", !r.chance(1, 8)).set("chunk", r.below(4));
  for (auto f : focus)
    for (size_t k = 0; k < api_calls().size(); ++k)
      if (!strcmp(api_calls()[k].name, f)) p.add("call").set("k", (int64_t)k).set("seed", (int64_t)(r.next() >> 20));
  int c = 2 + (int)r.below(th ? 20 : 9);
  for (int i = 0; i < c; ++i) p.add("call").set("k", r.below(api_calls().size())).set("seed", (int64_t)(r.next() >> 20));
}

static void run14(const Plan& p, RunInfo& info) {
  t_alloc.cfg.poison = (unsigned char)(p.seed * 29 + 7);
  t_alloc.cfg.cap = 6u << 20;
  std::string bytes;
  std::unique_ptr<RefPe> ref;
  std::unique_ptr<pe_base> pe;
  int damaged = 0, calls = 0;
  auto budget = [&] { t_step_budget = 3000000 + 4000ull * bytes.size(); };
  auto guarded = [&](const std::string& what, const std::function<std::string()>& fn) {
    std::string o;
    budget();
    try { o = fn(); }
    catch (const std::bad_alloc&) { o = "bad_alloc"; probe("lack-of-memory"); }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { violate("C14:foreign", what + " on a damaged file let a foreign exception escape: " + e.what()); }
    catch (...) { violate("C14:foreign", what + " on a damaged file let a foreign exception escape"); }
    EV("%s -> %s", what.c_str(), o.size() < 120 ? o.c_str() : fmt("%zu:%016llx", o.size(), (unsigned long long)fnv(o)).c_str());
    g_stats.states.insert(fnv(what + o));
    g_stats.ops[what]++;
    return o;
  };
  for (auto& op : p.ops) {
    if (op.name == "image") {
      bytes = op.get("chain", 0) ? chain_image((uint64_t)op.get("seed", 1), (uint32_t)op.get("chain")) : image_of(op);
      ref.reset(new RefPe(bytes));
    } else if (op.name == "damage" && ref) {
      Rng r((uint64_t)op.get("seed", 1));
      int how = (int)op.get("how", 0) % kDamages;
      std::string b = damage_once(bytes, *ref, how, r);
      if (b != bytes) { fault_fired(kDamage[how]); ++damaged; }
      bytes.swap(b);
      EV("damage %s -> %zu:%016llx", kDamage[how], bytes.size(), (unsigned long long)fnv(bytes));
    } else if (op.name == "file" && ref) {
      const FileCall& c = file_calls()[(size_t)op.get("k") % file_calls().size()];
      guarded(c.name, [&] { return perform(c, bytes, (uint64_t)op.get("seed")); });
      ++calls;
    } else if (op.name == "open" && ref) {
      static const uint32_t ch[] = {0, 4096, 512, 61};
      std::string o = guarded("load", [&]() -> std::string {
        IoCfg ic;
        ic.chunk = ch[op.get("chunk", 0) % 4];
        SimBuf sb(&bytes, nullptr, ic);
        std::istream in(&sb);
        try { Lib l; pe.reset(new pe_base(pe_factory::create_pe(in, op.get("mem", 0) != 0, op.get("dbg", 1) != 0))); return "ok"; }
        catch (const pe_exception& e) { return std::string("refused: ") + e.what(); }
      });
      ++calls;
      probe(o == "ok" ? "damaged-file-accepted" : "damaged-file-refused");
    } else if (op.name == "call" && pe) {
      const Call& c = api_calls()[(size_t)op.get("k") % api_calls().size()];
      std::string o = guarded(c.name, [&] { return perform(c, *pe, (uint64_t)op.get("seed")); });
      if (o.find("refused: ") == 0 || o.find("error: ") != std::string::npos) probe("call-refused");
      ++calls;
    }
  }
  { Lib l; pe.reset(); }
  info.nontrivial = damaged > 0 && calls > 0;
}
static const Exec ex_C14 = {"C14", gen14, run14, 300000, 12000000, "at least one damage changed the file and at least one call was made on it.",
  "well-formed files damaged by eighteen kinds of faults (truncation, bit flips, lost, swapped and foreign sectors, extreme values in headers, section table, directories, what they point at, debug records and resource data, resource sizes cutting structures, directories moved to section ends, deep resource chains), then loaded and put through random sequences of every reader, viewer, typed resource call, rebuild and edit, under the address sanitizer, allocation accounting and a step budget.", "fault_enumeration", true};
static ExecReg reg_C14(&ex_C14);

}  // namespace sim
