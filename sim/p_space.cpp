// C09: the address space stays consistent through section edits.
#include "exec.h"
#include <algorithm>
using namespace pe_bliss;

namespace sim {
namespace {

struct Map {                       // the address space as the section table states it
  std::vector<LibSec> s;
  std::vector<uint64_t> end;       // va + aligned virtual size
  uint32_t sa = 0, fa = 0;
  std::string hdr;
  explicit Map(const pe_base& pe) {
    s = lib_sections(pe);
    Lib l;
    sa = pe.get_section_alignment(); fa = pe.get_file_alignment();
    hdr = pe.get_full_headers_data();
    for (auto& x : s) end.push_back(x.va + alup<uint64_t>(x.vsize ? x.vsize : x.rawsize, sa));
  }
  int find(uint64_t a) const { for (size_t i = 0; i < s.size(); ++i) if (a >= s[i].va && a < end[i]) return (int)i; return -1; }
};

template <class T> std::string le_bytes(T v) { return std::string((const char*)&v, sizeof v); }

// outcome of a library call: bytes / number as text, or "refused"
template <class F> std::string call(F f, const char* what) {
  try { Lib l; return f(); }
  catch (const pe_exception&) { return "refused"; }
  catch (const std::bad_alloc&) { return "bad_alloc"; }
  catch (const std::exception& e) { violate("C09:foreign", std::string(what) + " threw a foreign exception: " + e.what()); }
}
void expect(const std::string& want, const std::string& got, const char* what, uint64_t a) {
  if (want != got) violate("C09:" + std::string(what), fmt("%s at %llx gives %s, expected %s", what, (unsigned long long)a, hexs(got).c_str(), hexs(want).c_str()) + (got.size() < 20 && got.find_first_not_of("0123456789abcdefu ,") != std::string::npos ? " (" + esc(got) + ")" : ""));
}

void check_table(Session& S, Slot& sl, bool edited) {
  Map m(*sl.pe);
  if (m.s.empty()) return;
  uint32_t soh, soi;
  { Lib l; soh = sl.pe->get_size_of_headers(); soi = sl.pe->get_size_of_image(); }
  if (m.s[0].va % m.sa) S.bad("layout", fmt("section 0 at %x is not aligned to %x", m.s[0].va, m.sa));
  if (m.s[0].va < soh) S.bad("layout", fmt("section 0 at %x lies inside the headers (%x)", m.s[0].va, soh));
  for (size_t i = 0; i < m.s.size(); ++i) {
    if (m.end[i] <= m.s[i].va) S.bad("layout", fmt("section %zu occupies no addresses", i));
    if (i && m.s[i].va != m.end[i - 1]) S.bad("layout", fmt("section %zu at %x does not follow the previous one, which ends at %llx", i, m.s[i].va, (unsigned long long)m.end[i - 1]));
    if (m.s[i].data.size() > m.end[i] - m.s[i].va) S.bad("layout", fmt("section %zu holds %zx raw bytes in %llx bytes of address space", i, m.s[i].data.size(), (unsigned long long)(m.end[i] - m.s[i].va)));
    if (m.s[i].rawsize > m.end[i] - m.s[i].va) S.bad("layout", fmt("section %zu states %x raw bytes in %llx bytes of address space", i, m.s[i].rawsize, (unsigned long long)(m.end[i] - m.s[i].va)));
  }
  if (edited && soi != m.end.back()) S.bad("image-size", fmt("image size is %x, sections end at %llx", soi, (unsigned long long)m.end.back()));
}

template <class T> void probe_typed(const pe_base& cpe, const Map& m, int i, uint32_t a, bool hdrs) {
  for (int v = 0; v < 2; ++v) {
    section_data_type dt = v ? section_data_virtual : section_data_raw;
    std::string want;
    if (hdrs && (uint64_t)a + sizeof(T) <= m.hdr.size()) want = m.hdr.substr(a, sizeof(T));
    else if (i < 0) want = "refused";
    else {
      std::string d = m.s[i].data;
      uint64_t off = a - m.s[i].va, lim = v ? std::max<uint64_t>(m.end[i] - m.s[i].va, d.size()) : d.size();
      if (off + sizeof(T) > lim) want = "refused";
      else { want = off < d.size() ? d.substr(off, sizeof(T)) : std::string(); want.resize(sizeof(T), '\0'); }
    }
    expect(want, call([&] { return le_bytes(cpe.section_data_from_rva<T>(a, dt, hdrs)); }, "typed read"), v ? "typed-virtual" : "typed-raw", a);
    if (i >= 0 && !hdrs) {
      expect(want, call([&] { return le_bytes(cpe.section_data_from_rva<T>(cpe.get_image_sections()[i], a, dt)); }, "typed section read"), v ? "typed-virtual-section" : "typed-raw-section", a);
      // another section refuses the address
      size_t o = ((size_t)i + 1) % m.s.size();
      if (m.s.size() > 1) expect("refused", call([&] { return le_bytes(cpe.section_data_from_rva<T>(cpe.get_image_sections()[o], a, dt)); }, "typed section read"), "typed-other-section", a);
    }
    if (!hdrs) {
      uint64_t base = 0;
      { Lib l; base = cpe.get_image_base_64(); }
      if (base + a >= base) expect(want, call([&] { return le_bytes(cpe.section_data_from_va<T>((uint64_t)(base + a), dt, false)); }, "typed va read"), "typed-va", a);
      if (base + a <= 0xffffffffu) expect(want, call([&] { return le_bytes(cpe.section_data_from_va<T>((uint32_t)(base + a), dt, false)); }, "typed va read"), "typed-va32", a);
    }
  }
}

void probe_address(Session& S, Slot& sl, const Map& m, uint32_t a, Rng& r, bool files) {
  pe_base& pe = *sl.pe;
  const pe_base& cpe = pe;
  int i = m.find(a);
  auto idx_of = [&](const section* p) { for (size_t k = 0; k < m.s.size(); ++k) if (&cpe.get_image_sections()[k] == p) return fmt("%zu", k); return std::string("foreign"); };
  std::string wi = i < 0 ? "refused" : fmt("%d", i);
  // resolution
  expect(wi, call([&] { return idx_of(&cpe.section_from_rva(a)); }, "section_from_rva"), "section_from_rva", a);
  expect(wi, call([&] { return idx_of(&pe.section_from_rva(a)); }, "section_from_rva"), "section_from_rva", a);
  expect(i < 0 ? "refused" : fmt("%d %x", i, a - m.s[i].va), call([&] { auto p = cpe.section_and_offset_from_rva(a); return idx_of(p.second) + fmt(" %x", p.first); }, "section_and_offset"), "section_and_offset", a);
  if (i >= 0) expect(fmt("%x", a), call([&] { return fmt("%x", pe_base::rva_from_section_offset(cpe.get_image_sections()[i], a - m.s[i].va)); }, "rva_from_section_offset"), "rva_from_section_offset", a);
  // virtual addresses
  uint64_t base;
  bool plus;
  { Lib l; base = cpe.get_image_base_64(); plus = cpe.get_pe_type() == pe_type_64; }
  uint64_t va = base + a;
  if (va >= base) {
    expect(fmt("%llx", (unsigned long long)va), call([&] { uint64_t x = 0; cpe.rva_to_va(a, x); uint64_t y = cpe.rva_to_va_64(a); return x == y ? fmt("%llx", (unsigned long long)x) : "two answers"; }, "rva_to_va"), "rva_to_va", a);
    expect(fmt("%x", a), call([&] { return fmt("%x", cpe.va_to_rva(va)); }, "va_to_rva"), "va_to_rva", va);
    expect(wi, call([&] { return idx_of(&cpe.section_from_va(va)); }, "section_from_va"), "section_from_va", va);
    expect(wi, call([&] { return idx_of(&pe.section_from_va(va)); }, "section_from_va"), "section_from_va", va);
  }
  if (!plus) {
    bool fits = va <= 0xffffffffu;
    expect(fits ? fmt("%llx", (unsigned long long)va) : "refused", call([&] { uint32_t x = 0; cpe.rva_to_va(a, x); return fmt("%x", x); }, "rva_to_va_32"), "rva_to_va_32", a);
    if (fits) {
      expect(fmt("%x", a), call([&] { return fmt("%x", cpe.va_to_rva((uint32_t)va)); }, "va_to_rva"), "va_to_rva_32", va);
      expect(wi, call([&] { return idx_of(&cpe.section_from_va((uint32_t)va)); }, "section_from_va"), "section_from_va_32", va);
      expect(wi, call([&] { return idx_of(&pe.section_from_va((uint32_t)va)); }, "section_from_va"), "section_from_va_32", va);
    }
  }
  if (base) {
    uint64_t low = base - 1 - r.below(std::min<uint64_t>(base, 0x5000));
    expect("refused", call([&] { return fmt("%x", cpe.va_to_rva(low)); }, "va_to_rva"), "va_to_rva-below", low);
    if (!plus) expect("refused", call([&] { return fmt("%x", cpe.va_to_rva((uint32_t)low)); }, "va_to_rva"), "va_to_rva-below", low);
  }
  if (base < 0xffffffff00000000ull) {
    uint64_t hi = base + 0x100000000ull + r.below(0x5000);
    if (hi > base) expect("refused", call([&] { return fmt("%x", cpe.va_to_rva(hi)); }, "va_to_rva"), "va_to_rva-above", hi);
  }
  // lengths
  for (int h = 0; h < 2; ++h)
    for (int v = 0; v < 2; ++v) {
      section_data_type dt = v ? section_data_virtual : section_data_raw;
      std::string tot, rem;
      if (h && a < m.hdr.size()) { tot = fmt("%zu", m.hdr.size()); rem = fmt("%zu", m.hdr.size() - a); }
      else if (i < 0) tot = rem = "refused";
      else {
        uint64_t n = v ? m.end[i] - m.s[i].va : m.s[i].data.size(), o = a - m.s[i].va;
        tot = fmt("%llu", (unsigned long long)n);
        rem = fmt("%llu", (unsigned long long)(n > o ? n - o : 0));
      }
      expect(tot, call([&] { return fmt("%u", cpe.section_data_length_from_rva(a, dt, h != 0)); }, "length"), "length", a);
      expect(rem, call([&] { return fmt("%u", cpe.section_data_length_from_rva(a, a, dt, h != 0)); }, "length"), "length-inside", a);
      if (va >= base) expect(tot, call([&] { return fmt("%u", cpe.section_data_length_from_va(va, dt, h != 0)); }, "length"), "length-va", va);
      if (va >= base) expect(rem, call([&] { return fmt("%u", cpe.section_data_length_from_va(va, va, dt, h != 0)); }, "length"), "length-inside-va", va);
      if (i >= 0 && !h) {
        expect(rem, call([&] { return fmt("%u", cpe.section_data_length_from_rva(cpe.get_image_sections()[i], a, dt)); }, "length"), "length-section", a);
        if (va >= base) expect(rem, call([&] { return fmt("%u", cpe.section_data_length_from_va(cpe.get_image_sections()[i], va, dt)); }, "length"), "length-section-va", a);
      }
      if (i < 0 && !h && !m.s.empty()) expect("refused", call([&] { return fmt("%u", cpe.section_data_length_from_rva(cpe.get_image_sections()[r.below(m.s.size())], a, dt)); }, "length"), "length-section-outside", a);
    }
  // typed reads
  for (int h = 0; h < 2; ++h) {
    probe_typed<uint8_t>(cpe, m, i, a, h);
    probe_typed<uint16_t>(cpe, m, i, a, h);
    probe_typed<uint32_t>(cpe, m, i, a, h);
    probe_typed<uint64_t>(cpe, m, i, a, h);
  }
  // pointers
  if (i >= 0) {
    uint64_t o = a - m.s[i].va;
    const std::string& d = m.s[i].data;
    std::string vb(1, o < d.size() ? d[o] : '\0');
    expect(vb, call([&] { return std::string(cpe.section_data_from_rva(a, section_data_virtual), 1); }, "pointer"), "pointer-virtual", a);
    expect(vb, call([&] { return std::string(cpe.section_data_from_rva(cpe.get_image_sections()[i], a, section_data_virtual), 1); }, "pointer"), "pointer-virtual-section", a);
    if (va >= base) expect(vb, call([&] { return std::string(cpe.section_data_from_va(va, section_data_virtual), 1); }, "pointer"), "pointer-virtual-va", a);
    if (o < d.size()) {
      expect(vb, call([&] { return std::string(cpe.section_data_from_rva(a, section_data_raw), 1); }, "pointer"), "pointer-raw", a);
      expect(vb, call([&] { return std::string(pe.section_data_from_rva(a), 1); }, "pointer"), "pointer-mutable", a);
      expect(vb, call([&] { return std::string(pe.section_data_from_rva(pe.get_image_sections()[i], a), 1); }, "pointer"), "pointer-mutable-section", a);
      if (va >= base) expect(vb, call([&] { return std::string(pe.section_data_from_va(va), 1); }, "pointer"), "pointer-mutable-va", a);
    }
    if (d.empty()) expect("refused", call([&] { pe.section_data_from_rva(a); return std::string("accepted"); }, "pointer"), "pointer-empty", a);
  } else {
    expect("refused", call([&] { cpe.section_data_from_rva(a, section_data_virtual); return std::string("accepted"); }, "pointer"), "pointer-outside", a);
    expect("refused", call([&] { cpe.section_data_from_rva(a, section_data_raw); return std::string("accepted"); }, "pointer"), "pointer-outside", a);
    expect("refused", call([&] { pe.section_data_from_rva(a); return std::string("accepted"); }, "pointer"), "pointer-outside", a);
  }
  if (a < m.hdr.size()) {
    std::string b(1, m.hdr[a]);
    expect(b, call([&] { return std::string(cpe.section_data_from_rva(a, section_data_raw, true), 1); }, "pointer"), "pointer-headers", a);
    expect(b, call([&] { return std::string(pe.section_data_from_rva(a, true), 1); }, "pointer"), "pointer-headers", a);
  }
  // file offsets: only when the section table states where the bytes are in the file
  if (files) {
    uint32_t soh;
    { Lib l; soh = cpe.get_size_of_headers(); }
    if (a < soh) {
      expect(fmt("%x", a), call([&] { return fmt("%x", cpe.rva_to_file_offset(a)); }, "rva_to_file_offset"), "rva_to_file_offset-headers", a);
      expect(fmt("%x", a), call([&] { return fmt("%x", cpe.file_offset_to_rva(a)); }, "file_offset_to_rva"), "file_offset_to_rva-headers", a);
    } else if (i < 0) expect("refused", call([&] { return fmt("%x", cpe.rva_to_file_offset(a)); }, "rva_to_file_offset"), "rva_to_file_offset-outside", a);
    else if (a - m.s[i].va < m.s[i].rawsize && m.s[i].rawptr % m.fa == 0) {
      uint32_t o = m.s[i].rawptr + (a - m.s[i].va);
      expect(fmt("%x", o), call([&] { return fmt("%x", cpe.rva_to_file_offset(a)); }, "rva_to_file_offset"), "rva_to_file_offset", a);
      expect(fmt("%x", a), call([&] { return fmt("%x", cpe.file_offset_to_rva(o)); }, "file_offset_to_rva"), "file_offset_to_rva", o);
      expect(fmt("%d", i), call([&] { return idx_of(&cpe.section_from_file_offset(o)); }, "section_from_file_offset"), "section_from_file_offset", o);
      expect(fmt("%d", i), call([&] { return idx_of(&pe.section_from_file_offset(o)); }, "section_from_file_offset"), "section_from_file_offset", o);
      if (o < sl.disk.size() && a - m.s[i].va < m.s[i].data.size())
        expect(std::string(1, sl.disk[o]), call([&] { return std::string(cpe.section_data_from_rva(a, section_data_raw), 1); }, "pointer"), "file-byte", a);
    }
    // an offset beyond every section's data is refused
    uint64_t last = soh;
    for (auto& x : m.s) if (x.rawsize) last = std::max<uint64_t>(last, (uint64_t)x.rawptr + x.rawsize);
    uint32_t o = (uint32_t)(last + r.below(0x2000));
    expect("refused", call([&] { return fmt("%x", cpe.file_offset_to_rva(o)); }, "file_offset_to_rva"), "file_offset_to_rva-outside", o);
    expect("refused", call([&] { return idx_of(&cpe.section_from_file_offset(o)); }, "section_from_file_offset"), "section_from_file_offset-outside", o);
  }
  ++g_stats.probes["addresses-probed"];
  (void)S;
}

void probe_slot(Session& S, Slot& sl, const Op& op, bool files) {
  Rng r((uint64_t)op.get("seed", 1));
  Map m(*sl.pe);
  Facts before = sl.f;
  std::vector<uint32_t> pts = {0, 1, (uint32_t)m.hdr.size(), 0xffffffffu, 0x80000000u};
  for (int k : {1, 2, 4, 8}) if (m.hdr.size() > (size_t)k) pts.push_back((uint32_t)m.hdr.size() - k);
  for (size_t i = 0; i < m.s.size(); ++i) {
    auto& x = m.s[i];
    for (int d : {-8, -4, -2, -1, 0, 1}) for (uint64_t e : {(uint64_t)x.va, (uint64_t)x.va + x.data.size(), (uint64_t)x.va + x.rawsize, (uint64_t)x.va + x.vsize, m.end[i]}) pts.push_back((uint32_t)(e + d));
    pts.push_back(x.va + (uint32_t)r.below(m.end[i] - x.va));
    pts.push_back(x.va + (uint32_t)r.below(m.end[i] - x.va));
  }
  int n = (int)op.get("n", 6);
  int64_t af = op.get("af", -1);
  for (int k = 0; k < n; ++k) {
    uint32_t a = r.chance(1, 20) ? (uint32_t)r.next() : pts[r.below(pts.size())];
    if (af >= 0 && k % 3 == 0 && !m.s.empty()) {   // mapping virtual data fails for lack of memory
      size_t i = r.below(m.s.size());
      const pe_base& c = *sl.pe;
      { Lib l; c.get_image_sections()[i].get_raw_data(); }
      t_alloc.count = 0;
      t_alloc.cfg.fail_at = 0;
      uint64_t f0 = t_alloc.failed;
      std::string got = call([&] { return fmt("%zu", c.get_image_sections()[i].get_virtual_data(m.sa).size()); }, "get_virtual_data");
      t_alloc.cfg.fail_at = -1;
      if (t_alloc.failed > f0) fault_fired("alloc");
      std::string raw;
      { Lib l; raw = c.get_image_sections()[i].get_raw_data(); }
      if (raw != m.s[i].data) violate("C09:map-failure", "mapping virtual data failed for lack of memory and changed the raw data");
      std::string want = m.s[i].data;
      want.resize(std::max<size_t>(want.size(), m.end[i] - m.s[i].va), '\0');
      std::string v;
      { Lib l; v = c.get_image_sections()[i].get_virtual_data(m.sa); }
      if (v != want) violate("C09:virtual", "virtual data is not the raw data followed by zeros");
      bool emp;
      { Lib l; emp = c.get_image_sections()[i].empty(); }
      if (emp != m.s[i].data.empty()) violate("C09:empty", "empty() is wrong while virtual data is mapped");
    }
    probe_address(S, sl, m, a, r, files);
  }
  // probing changes nothing
  S.after(sl, "probe", before, {}, {});
}

// The durable file with its section table, alignments or sizes altered: what the loader accepts must be
// an address space in which sections follow each other and every address resolves.
bool twist(Session& S, Slot& sl, const Op& op) {
  if (!sl.has_disk) return false;
  Rng r((uint64_t)op.get("seed", 1));
  std::string b = sl.disk;
  RefPe ref(b);
  if (!ref.ok || ref.secs.empty()) return false;
  uint32_t sa = ref.salign, fa = ref.falign, opt = ref.nt_off + 24;
  int n = 1 + (int)r.below(3);
  for (int k = 0; k < n; ++k) {
    size_t i = r.below(ref.secs.size());
    uint32_t h = ref.sec_off + (uint32_t)i * 40, at = 0;
    switch (r.below(10)) {
      case 0: case 1: at = h + 12; break;                // VirtualAddress
      case 2: case 3: case 4: at = h + 8; break;         // VirtualSize
      case 5: at = h + 16; break;                        // SizeOfRawData
      case 6: at = h + 20; break;                        // PointerToRawData
      case 7: at = opt + 56; break;                      // SizeOfImage
      case 8: at = opt + 60; break;                      // SizeOfHeaders
      default: at = opt + (r.chance(1, 2) ? 32 : 36);    // alignments
    }
    uint32_t v = le32(b, at);
    switch (r.below(9)) {
      case 0: v += 1 + (uint32_t)r.below(16); break;
      case 1: v -= 1 + (uint32_t)r.below(16); break;
      case 2: v += sa; break;
      case 3: v -= sa; break;
      case 4: v = r.chance(1, 2) ? v + fa : v - fa; break;
      case 5: v = 0; break;
      case 6: v = 0u - (1 + (uint32_t)r.below(3)) * sa + (uint32_t)r.below(3); break;
      case 7: v = v * 2; break;
      default: v = (uint32_t)r.below(0x4000);
    }
    if (at == opt + 32 || at == opt + 36) v = r.chance(1, 2) ? sa << r.below(3) : 1u << r.below(17);
    put32(b, at, v);
    // a section which grows may take the following ones along, and the image with them
    if (r.chance(1, 2) && (at == h + 8 || at == h + 12)) {
      uint32_t d = alup<uint32_t>(le32(b, at), sa) - alup<uint32_t>(at == h + 8 ? ref.secs[i].vsize : ref.secs[i].va, sa);
      for (size_t j = i + 1; j < ref.secs.size(); ++j) put32(b, ref.sec_off + (uint32_t)j * 40 + 12, le32(b, ref.sec_off + (uint32_t)j * 40 + 12) + d);
      put32(b, opt + 56, le32(b, opt + 56) + d);
    }
  }
  Slot t;
  std::string how;
  SimBuf sb(&b, nullptr, IoCfg());
  std::istream st(&sb);
  try { Lib l; t.pe.reset(new pe_base(pe_factory::create_pe(st))); how = "accepted"; }
  catch (const pe_exception& e) { how = "refused"; }
  S.note("  section table altered: " + how);
  ++g_stats.ops["table-" + how];
  fault_fired("section-table-damage");
  if (how == "refused") return true;
  Map m(*t.pe);
  uint32_t soh, soi;
  { Lib l; soh = t.pe->get_size_of_headers(); soi = t.pe->get_size_of_image(); }
  uint64_t room = alup<uint64_t>(soi, m.sa), total = 0;
  if (m.s.empty()) S.bad("twist-empty", "the loaded image has no sections");
  if (m.s[0].va < soh) S.bad("twist-layout", fmt("an image whose first section at %x lies inside the headers (%x) was accepted", m.s[0].va, soh));
  for (size_t i = 0; i < m.s.size(); ++i) {
    total += m.end[i] - m.s[i].va;
    if (m.end[i] <= m.s[i].va) S.bad("twist-layout", fmt("section %zu occupies no addresses", i));
    if (m.end[i] > room) S.bad("twist-layout", fmt("an image whose section %zu ends at %llx, beyond the image size %llx, was accepted", i, (unsigned long long)m.end[i], (unsigned long long)room));
    if (i && m.s[i].va != m.end[i - 1]) S.bad("twist-layout", fmt("an image whose section %zu at %x does not follow the previous one, which ends at %llx, was accepted", i, m.s[i].va, (unsigned long long)m.end[i - 1]));
    if (m.s[i].data.size() > m.end[i] - m.s[i].va) S.bad("twist-layout", fmt("section %zu holds %zx raw bytes in %llx bytes of address space", i, m.s[i].data.size(), (unsigned long long)(m.end[i] - m.s[i].va)));
  }
  if (total > 0x200000) return true;
  for (int k = 0; k < 4; ++k) {
    auto& x = m.s[r.below(m.s.size())];
    uint64_t end = x.va + alup<uint64_t>(x.vsize ? x.vsize : x.rawsize, m.sa), pts[] = {x.va, x.va + x.data.size(), end, x.va + r.below(end - x.va)};
    probe_address(S, t, m, (uint32_t)(pts[r.below(4)] + r.below(3) - 1), r, false);
  }
  return true;
}

void gen_c09(Rng& r, Plan& p, bool th) {
  int w = (int)r.below(20);
  int kind = w < 8 ? 50 + (int)r.below(2) : w < 16 ? 100 + (int)r.below(64) : w < 18 ? 2 + (int)r.below(2) : (const int[]){7, 8, 0, 4}[r.below(4)];
  p.add("new").set("kind", kind).set("seed", (int64_t)(r.next() >> 20)).set("dll", r.below(2)).set("align", r.chance(1, 4) ? 0x2000 : r.chance(1, 6) ? 0x10000 : 0x1000);
  int n = 4 + (int)r.below(th ? 30 : 14);
  bool faults = r.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    int q = (int)r.below(20);
    if (q < 6) {
      static const int modes[] = {0, 0, 0, 1, 2, 2, 3, 3, 5, 6, 7, 8, 9, 10, 11};
      Op& o = p.add("section").set("mode", modes[r.below(15)]).set("seed", (int64_t)(r.next() >> 20));
      if (faults && r.chance(1, 4)) o.set("af", r.below(1000));
    } else if (q < 15) {
      Op& o = p.add("probe").set("n", 3 + r.below(8)).set("seed", (int64_t)(r.next() >> 20));
      if (faults && r.chance(1, 2)) o.set("af", 1);
      if (r.chance(1, 4)) p.add("twist").set("seed", (int64_t)(r.next() >> 20));
    } else if (q == 15) p.add("read").set("n", r.below(5)).set("seed", (int64_t)(r.next() >> 20));
    else if (q == 16) p.add("copy").set("t", 1).set("how", r.below(2));
    else if (q == 17) p.add("header").set("f", 13).set("seed", (int64_t)(r.next() >> 20));
    else {
      Op& o = p.add(q == 18 ? (r.chance(1, 2) ? "restart" : "save") : r.chance(1, 3) ? "dump" : "crash").set("noise", (int64_t)r.below(1000));
      if (r.chance(1, 8)) o.set("strip", 1);
    }
  }
  p.add("probe").set("n", 8).set("seed", (int64_t)(r.next() >> 20));
  p.add("restart");
  p.add("probe").set("n", 8).set("seed", (int64_t)(r.next() >> 20));
}

// section edits only this property uses
bool extra(Session& S, Slot& sl, const Op& op) {
  Rng r((uint64_t)op.get("seed", 1));
  Facts want = sl.f;
  Lib* none = nullptr; (void)none;
  int mode = (int)op.get("mode", 0);
  uint32_t sa, fa;
  { Lib l; sa = sl.pe->get_section_alignment(); fa = sl.pe->get_file_alignment(); }
  if (want.secs.size() >= 0x50) return false;
  if (mode == 8) {        // first section at a chosen address
    if (!want.secs.empty()) return false;
    uint32_t va = sa * (1 + (uint32_t)r.below(40)) + (uint32_t)r.below(2) * 0x10;
    uint32_t soh;
    { Lib l; soh = sl.pe->get_size_of_headers(); }
    if (va < soh) return false;
    std::string raw((size_t)1 + r.below(2000), (char)0x33);
    if (!S.attempt(sl, op, "section first", [&](pe_base& pe) { section s; s.set_name(".first"); s.readable(true); s.set_raw_data(raw); s.set_virtual_address(va); pe.add_section(s); }, {"hdr"}, false)) return true;
    Facts got = read_facts(*sl.pe);
    if (got.secs.size() != 1 || got.secs[0].va != alup<uint32_t>(va, sa) || got.secs[0].data != raw) S.bad("add", fmt("first section asked at %x is placed at %x", va, got.secs.empty() ? 0 : got.secs[0].va));
    want.secs = got.secs;
    S.after(sl, "section first", want, {"nsections", "size_of_image"}, {});
    return true;
  }
  if (want.secs.empty()) return false;
  if (mode == 9) {        // virtual size reset to the raw size
    auto& l = want.secs.back();
    bool refuse = l.data.empty();
    std::string got = call([&] { sl.pe->set_section_virtual_size(sl.pe->get_image_sections().back(), 0); return std::string("ok"); }, "set_section_virtual_size");
    if (refuse != (got == "refused")) S.bad("vsize-zero", "set_section_virtual_size(0) " + got);
    if (!refuse) { l.vsize = l.rawsize; want.hdr["size_of_image"] = fmt("%u", l.va + alup<uint32_t>(l.vsize, sa)); sl.used_end[l.va] = std::max<uint32_t>(l.vsize, (uint32_t)l.data.size()); }
    S.after(sl, "section vsize 0", want, {}, {});
    return true;
  }
  if (mode == 10) {       // sections other than the last refuse to be resized
    if (want.secs.size() < 2) return false;
    size_t i = r.below(want.secs.size() - 1);
    std::string a = call([&] { sl.pe->set_section_virtual_size(sl.pe->get_image_sections()[i], 0x123456); return std::string("ok"); }, "set_section_virtual_size");
    std::string b = call([&] { sl.pe->expand_section(sl.pe->get_image_sections()[i], want.secs[i].va, 0x123456, r.chance(1, 2) ? pe_base::expand_section_raw : pe_base::expand_section_virtual); return std::string("ok"); }, "expand_section");
    if (a != "refused" || b != "refused") S.bad("resize-inner", "resizing a section which is not the last one was accepted");
    S.after(sl, "section refuse", want, {}, {});
    return true;
  }
  if (mode == 11) {       // the address space ends at 4 GB
    auto& l = want.secs.back();
    uint64_t end = l.va + alup<uint64_t>(std::max<uint64_t>(l.vsize ? l.vsize : l.rawsize, 1), sa), top = 0x100000000ull;
    auto big = [&](uint64_t from) { uint64_t left = top - from; uint32_t d = (uint32_t)r.below(3); return (uint32_t)std::min<uint64_t>(0xffffffffu, d == 0 ? left + 1 + r.below(sa) : d == 1 ? 0xffffffffu - r.below(0x2000) : left + r.below(top - left)); };
    bool raw = r.chance(1, 2);
    for (int k = 0; k < 3; ++k) {
      uint32_t v = big(end), w = big(l.va), at = l.va + (uint32_t)r.below(0x2000), x = (uint32_t)(0u - at) + (r.chance(1, 2) ? 1 + (uint32_t)r.below(0x1800) : (uint32_t)r.below(at));
      std::string a = call([&] { section s; s.set_name("huge"); if (raw) s.set_raw_data("x"); s.set_virtual_size(v); sl.pe->add_section(s); return std::string("ok"); }, "add_section");
      if ((uint64_t)end + v > top && a != "refused") S.bad("address-space", fmt("a section of %x bytes behind %llx was accepted", v, (unsigned long long)end));
      if (a != "refused") return true;
      std::string b = call([&] { sl.pe->set_section_virtual_size(sl.pe->get_image_sections().back(), w); return std::string("ok"); }, "set_section_virtual_size");
      if (b != "refused") S.bad("address-space", fmt("the section at %x was given %x bytes", l.va, w));
      if ((uint64_t)at + x > top) {
        std::string c = call([&] { sl.pe->expand_section(sl.pe->get_image_sections().back(), at, x, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual); return std::string("ok"); }, "expand_section");
        if (c != "refused") S.bad("address-space", fmt("the section at %x was expanded to hold %x bytes at %x", l.va, x, at));
      }
    }
    S.after(sl, "section beyond 4 GB", want, {}, {});
    // one that still fits is placed
    std::unique_ptr<pe_base> t;
    uint32_t fit = (uint32_t)(top - end - sa * (1 + r.below(3)) - r.below(sa));
    { Lib q; t.reset(new pe_base(*sl.pe)); }
    std::string d = call([&] { section s; s.set_name("fits"); s.set_virtual_size(fit); section& n = t->add_section(s); return fmt("%x %x %x", n.get_virtual_address(), n.get_virtual_size(), t->get_size_of_image()); }, "add_section");
    uint32_t fv = alup<uint32_t>(fit, sa);
    if (d != fmt("%llx %x %llx", (unsigned long long)end, fv, (unsigned long long)end + fv)) S.bad("address-space", fmt("a section of %x bytes behind %llx gives %s", fit, (unsigned long long)end, d.c_str()));
    // and its addresses count like those of any other
    for (int k = 0; k < 6 && d != "refused"; ++k) {
      uint32_t at = (uint32_t)(end + (k == 0 ? 0 : k == 1 ? fv - 1 : r.below(fv))), left = (uint32_t)(end + fv - at);
      std::string e = call([&] {
        const section& n = t->get_image_sections().back();
        const pe_base& c = *t;
        bool same = &c.section_from_rva(at) == &n;
        return fmt("%d %x %x %x %x", same, c.section_data_length_from_rva(n, at, section_data_virtual), c.section_data_length_from_rva(at, at, section_data_virtual, true), c.section_data_length_from_rva(n, at, section_data_raw), n.get_aligned_virtual_size(sa));
      }, "section_data_length_from_rva");
      if (e != fmt("1 %x %x 0 %x", left, left, fv)) S.bad("address-space", fmt("in a section of %x bytes at %llx the address %x gives %s", fv, (unsigned long long)end, at, e.c_str()));
    }
    { Lib q; t.reset(); }
    return true;
  }
  (void)fa;
  return false;
}

void run_c09(const Plan& p, RunInfo& info) {
  Session S("C09");
  S.var.poison = (unsigned char)(p.seed * 11 + 5);
  t_alloc.cfg.poison = S.var.poison;
  std::map<int, bool> files;      // slot -> file positions in the section table are those of the durable file
  std::map<int, bool> edited;
  int probes = 0, edits = 0;
  for (auto& op : p.ops) {
    int s = (int)op.get("s", 0);
    bool done;
    if (op.name == "probe") {
      Slot* sl = S.slot(op);
      if (!sl) continue;
      probe_slot(S, *sl, op, files[s]);
      ++probes;
      done = true;
    } else if (op.name == "twist") {
      Slot* sl = S.slot(op);
      done = sl && twist(S, *sl, op);
    } else if (op.name == "section" && op.get("mode", 0) >= 8) {
      Slot* sl = S.slot(op);
      done = sl && extra(S, *sl, op);
      if (done) { files[s] = false; edited[s] = true; ++edits; }
    } else {
      done = S.step(op);
      if (done && op.name == "new") { files[s] = S.slots[s]->has_disk; edited[s] = false; }
      if (done && op.name == "section") { files[s] = op.get("mode", 0) == 1 && files[s]; if (op.get("mode", 0) != 1 && op.get("mode", 0) != 7) edited[s] = true; ++edits; }
      if (done && (op.name == "save" || op.name == "restart" || op.name == "crash" || op.name == "dump")) { files[s] = S.slots[s]->has_disk; edited[s] = op.name == "save"; }
      if (done && op.name == "save" && S.slots[s]->f.secs.empty()) files[s] = false;
      if (done && op.name == "copy") { files[(int)op.get("t", 1)] = files[s]; edited[(int)op.get("t", 1)] = edited[s]; }
    }
    if (!done) continue;
    ++S.executed;
    g_stats.ops[op.name]++;
    for (size_t k = 0; k < S.slots.size(); ++k) if (S.slots[k] && S.slots[k]->pe) check_table(S, *S.slots[k], edited[(int)k]);
  }
  info.nontrivial = probes && edits;
}
const Exec ex_C09 = {"C09", gen_c09, run_c09, 13000, 800000, "at least one section edit was executed and addresses were probed afterwards.",
  "histories of adding, growing, resizing and realigning sections, alignment changes, saves, restarts, memory dumps and copies; addresses at and around every boundary are resolved, converted and read through all interfaces, with failing allocations while virtual data is mapped.", "exploration", false};
ExecReg reg_C09(&ex_C09);

}  // namespace
}  // namespace sim
