#include "apicalls.h"
#include <algorithm>
using namespace pe_bliss;

namespace sim {

namespace {
typedef std::string S;
typedef pe_base P;
struct Out { std::string r; void operator()(const std::string& s) { Seam q; r += s; r += ' '; } };
uint64_t hv(const std::string& s) { return fnv(s); }
S hs(const std::string& s) { Seam q; return fmt("%zu:%016llx", s.size(), (unsigned long long)fnv(s)); }

uint32_t pick_rva(const P& pe, Rng& r) {
  static const int32_t d[] = {0, 0, 1, -1, 2, -2, 3, -3, 4, -4, 8, -8, 16, -16, 0xfff, 0x1000};
  int32_t k = d[r.below(16)];
  const section_list& s = pe.get_image_sections();
  switch (r.below(8)) {
    case 0: case 1: if (!s.empty()) { const section& x = s[r.below(s.size())]; return x.get_virtual_address() + k; } return k;
    case 2: if (!s.empty()) { const section& x = s[r.below(s.size())]; return x.get_virtual_address() + (uint32_t)x.get_raw_data().size() + k; } return k;
    case 3: if (!s.empty()) { const section& x = s[r.below(s.size())]; return x.get_virtual_address() + x.get_aligned_virtual_size(pe.get_section_alignment()) + k; } return k;
    case 4: if (!s.empty()) { const section& x = s[r.below(s.size())]; return x.get_virtual_address() + (uint32_t)r.below(x.get_virtual_size() + 1); } return k;
    case 5: { uint32_t n = pe.get_number_of_rvas_and_sizes(); if (n) { uint32_t i = (uint32_t)r.below(n); return pe.get_directory_rva(i) + (r.chance(1, 2) ? pe.get_directory_size(i) : 0) + k; } return k; }
    case 6: return (uint32_t)r.below(0x1000);
    default: { static const uint32_t x[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0xfffff000, 0x10000}; return x[r.below(8)]; }
  }
}
size_t any_section(const P& pe, Rng& r) {
  Lib l;
  size_t n = pe.get_image_sections().size();
  if (!n) throw pe_exception("no sections in the image", pe_exception::no_section_found);
  return r.below(n);
}
// a new section to build something in
section& room(P& pe, size_t bytes, const char* name) {
  section s;
  s.set_name(name);
  s.readable(true).writeable(true);
  s.set_raw_data(std::string(bytes, 'R'));
  return pe.add_section(s);
}
S dirtext(const image_directory& d) { Seam q; return fmt("%x+%x", d.get_rva(), d.get_size()); }
template <class F> void each(Out& o, F f) {
  try { f(); } catch (const pe_exception& e) { Seam q; o.r += std::string("(") + e.what() + ") "; }
}
S tree_text(const resource_directory& root) { Seam q; ResMap m; flatten(root, m); return text(m); }
S sec_text(const section& s) {
  Seam q;
  const auto& h = s.get_raw_header();
  return hs(std::string((const char*)&h, sizeof h)) + "/" + hs(s.get_raw_data());
}
S num(uint64_t v) { Seam q; return fmt("%llx", (unsigned long long)v); }
struct OutBuf {
  std::string bytes; IoCfg c; std::unique_ptr<SimBuf> b; std::unique_ptr<std::ostream> os;
  explicit OutBuf(Rng& r) { static const uint32_t v[] = {0, 512, 37, 4096}; c.obuf = v[r.below(4)]; b.reset(new SimBuf(nullptr, &bytes, c)); os.reset(new std::ostream(b.get())); }
};

void add(std::vector<Call>& v, const char* n, bool ro, std::set<std::string> t, std::function<S(P&, Rng&)> f) { v.push_back(Call{n, ro, std::move(t), std::move(f)}); }

std::vector<Call> make() {
  std::vector<Call> v;
  for (auto& c : kComponents) {
    static std::vector<std::string> names;
    if (names.empty()) for (auto& k : kComponents) names.push_back("read-" + k);
    size_t i = &c - &kComponents[0];
    add(v, names[i].c_str(), true, {}, [c](P& pe, Rng&) { return lib_component(pe, c); });
  }
  add(v, "read-relocations-with-absolute", true, {}, [](P& pe, Rng&) { return text(lib_relocs(pe, true)); });
  add(v, "header-getters", true, {}, [](P& pe, Rng&) { S s; for (auto& kv : lib_header(pe)) s += kv.first + "=" + kv.second + " "; return s; });
  add(v, "header-bytes", true, {}, [](P& pe, Rng&) { S s; for (auto& kv : lib_header_raw(pe)) s += kv.first + "=" + kv.second + " "; return s; });
  add(v, "sections", true, {}, [](P& pe, Rng&) { S s; for (auto& x : lib_sections(pe)) s += fmt("%x %x %s ", x.va, x.vsize, hs(x.data).c_str()); return s; });
  add(v, "rare-getters", true, {}, [](P& pe, Rng& r) {
    Out o; Lib l;
    for (uint32_t i = 0; i < 20; ++i) { o(num(pe.directory_exists(i))); each(o, [&] { o(num(pe.get_directory_rva(i))); o(num(pe.get_directory_size(i))); }); }
    o(num(pe.has_imports() | pe.has_exports() << 1 | pe.has_resources() << 2 | pe.has_security() << 3 | pe.has_reloc() << 4 | pe.has_tls() << 5 | pe.has_config() << 6 | pe.has_bound_import() << 7 | pe.has_delay_import() << 8 | pe.is_dotnet() << 9 | pe.has_exception_directory() << 10 | pe.has_debug() << 11 | pe.is_console() << 12 | pe.is_gui() << 13 | pe.has_overlay() << 14));
    o(num(pe.get_pe_header_start())); o(hs(pe.get_stub_overlay())); o(hs(pe.get_full_headers_data()));
    size_t n = 0; for (auto& d : pe.get_raw_debug_data_list()) n += d.second.size() + d.first; o(num(n));
    o(num(pe.get_sizeof_nt_header() + pe.get_sizeof_opt_headers()));
    { Seam q; o(hs(std::string(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()))); }
    return o.r;
  });
  add(v, "addresses", true, {}, [](P& pe, Rng& r) {
    Out o;
    const P& c = pe;
    for (int k = 0; k < 6; ++k) {
      uint32_t rva = pick_rva(pe, r), len = (uint32_t)r.below(64);
      section_data_type t = r.chance(1, 2) ? section_data_raw : section_data_virtual;
      bool inc = r.chance(1, 3);
      Lib l;
      each(o, [&] { o(num(c.section_from_rva(rva).get_virtual_address())); });
      each(o, [&] { o(num(c.rva_to_file_offset(rva))); });
      each(o, [&] { o(num(c.file_offset_to_rva(rva))); });
      each(o, [&] { o(num(c.section_from_file_offset(rva).get_virtual_address())); });
      each(o, [&] { o(num(c.section_and_offset_from_rva(rva).first)); });
      each(o, [&] { o(num(c.section_data_from_rva<uint8_t>(rva, t, inc))); });
      each(o, [&] { o(num(c.section_data_from_rva<uint32_t>(rva, t, inc))); });
      each(o, [&] { o(num(c.section_data_from_rva<uint64_t>(rva, t, inc))); });
      each(o, [&] { const section& s = c.section_from_rva(rva); o(num(c.section_data_from_rva<uint32_t>(s, rva, t))); o(num(c.section_data_length_from_rva(s, rva, t))); });
      each(o, [&] { o(num(c.section_data_length_from_rva(rva, rva + len, t, inc))); });
      each(o, [&] {
        uint32_t n = c.section_data_length_from_rva(rva, rva, t, inc);
        const char* p = c.section_data_from_rva(rva, t, inc);
        Seam q;
        o(num(n)); if (n) { uint64_t h = fnv(p, std::min<uint32_t>(n, 256)); h = fnv(p + n - std::min<uint32_t>(n, 256), std::min<uint32_t>(n, 256), h); o(num(h)); }
      });
      each(o, [&] {
        if (c.get_pe_type() == pe_type_32) { uint32_t va = c.rva_to_va_32(rva); o(num(va)); o(num(c.va_to_rva(va))); o(num(c.section_data_from_va<uint32_t>(va, t, inc))); o(num(c.section_from_va(va).get_virtual_address())); }
        else { uint64_t va = c.rva_to_va_64(rva); o(num(va)); o(num(c.va_to_rva(va))); o(num(c.section_data_from_va<uint32_t>(va, t, inc))); o(num(c.section_from_va(va).get_virtual_address())); }
      });
      each(o, [&] { o(num(c.section_from_directory((uint32_t)(rva % 17)).get_virtual_address())); });
    }
    return o.r;
  });
  add(v, "virtual-data", true, {}, [](P& pe, Rng& r) {
    size_t i = any_section(pe, r);
    Lib l;
    const section& s = static_cast<const P&>(pe).get_image_sections()[i];
    const std::string& d = s.get_virtual_data(pe.get_section_alignment());
    S t = hs(d);
    s.get_raw_data();
    return t;
  });
  add(v, "entropy", true, {}, [](P& pe, Rng& r) {
    Out o; Lib l;
    each(o, [&] { double e = entropy_calculator::calculate_entropy(pe); Seam q; o(fmt("%.9f", e)); });
    for (auto& s : static_cast<const P&>(pe).get_image_sections()) each(o, [&] { double e = entropy_calculator::calculate_entropy(s); Seam q; o(fmt("%.9f", e)); });
    return o.r;
  });
  add(v, "copy-image", true, {}, [](P& pe, Rng& r) {
    std::unique_ptr<P> c;
    { Lib l; c.reset(new P(pe)); }
    S t = lib_everything(*c, false);
    { Lib l; c.reset(); }
    return hs(t);
  });
  add(v, "assign-image", true, {}, [](P& pe, Rng& r) {
    std::unique_ptr<P> c, d;
    bool plus = r.chance(1, 2);
    { Lib l; c.reset(plus ? new P(pe_properties_64()) : new P(pe_properties_32())); }
    { Lib l; *c = pe; }
    S t = lib_everything(*c, false);
    return hs(t);
  });
  add(v, "self-assign", true, {}, [](P& pe, Rng& r) { Lib l; P& same = pe; pe = same; return S("done"); });
  add(v, "copy-sections", true, {}, [](P& pe, Rng& r) {
    Out o; Lib l;
    section_list a(pe.get_image_sections());
    section x;
    for (auto& s : a) { x = s; o(sec_text(x)); }
    a = pe.get_image_sections();
    return o.r;
  });
  add(v, "copy-debug-info", true, {}, [](P& pe, Rng& r) {
    Out o; Lib l;
    debug_info_list a = get_debug_information(pe), b(a);
    b = a;
    if (a.size() > 1) a[0] = a[1];
    if (!a.empty()) { debug_info& same = a[0]; a[0] = same; }
    for (auto& i : b) {
      o(num(i.get_advanced_info_type()));
      switch (i.get_advanced_info_type()) {
        case debug_info::advanced_info_pdb_7_0: o(i.get_advanced_debug_info<pdb_7_0_info>().get_pdb_file_name()); break;
        case debug_info::advanced_info_pdb_2_0: o(i.get_advanced_debug_info<pdb_2_0_info>().get_pdb_file_name()); break;
        case debug_info::advanced_info_misc: o(i.get_advanced_debug_info<misc_debug_info>().get_data_ansi()); break;
        case debug_info::advanced_info_coff: o(num(i.get_advanced_debug_info<coff_debug_info>().get_symbols().size())); break;
        default: break;
      }
    }
    return o.r;
  });
  add(v, "export-queries", true, {}, [](P& pe, Rng& r) {
    Out o; Lib l;
    export_info info;
    exported_functions_list f = get_exported_functions(pe, info);
    auto lim = get_export_ordinal_limits(f);
    o(num(lim.first)); o(num(lim.second));
    o(num(exported_name_exists("f", f)));
    o(num(exported_ordinal_exists((uint16_t)r.below(20), f)));
    exported_functions_list g(f);
    g = f;
    o(num(g.size()));
    return o.r;
  });
  add(v, "resource-views", true, {}, [](P& pe, Rng& r) {
    std::unique_ptr<resource_directory> root;
    { Lib l; root.reset(new resource_directory(get_resources(pe))); }
    ResMap m;
    flatten(*root, m);
    S a = view_problem(*root, m, r);
    { Lib l; root.reset(); }
    return a;
  });
  add(v, "resource-typed-views", true, {}, [](P& pe, Rng& r) {
    std::unique_ptr<resource_directory> root;
    { Lib l; root.reset(new resource_directory(get_resources(pe))); }
    ResMap m;
    flatten(*root, m);
    S a = typed_problem(*root, m, r);
    { Lib l; root.reset(); }
    return a;
  });
  add(v, "resource-steps", true, {}, [](P& pe, Rng& r) {
    std::unique_ptr<resource_directory> root;
    { Lib l; root.reset(pe.has_resources() ? new resource_directory(get_resources(pe)) : new resource_directory()); }
    S s;
    int n = 1 + (int)r.below(5);
    for (int k = 0; k < n; ++k) {
      ResMap m;
      flatten(*root, m);
      ResStep st = rnd_step(r, m, r.chance(1, 2));
      S x;
      { Lib l; x = lib_step(st, *root); }
      s += st.text() + ": " + x + "; ";
    }
    s += tree_text(*root);
    { Lib l; root.reset(); }
    return s;
  });
  add(v, "copy-resources", true, {}, [](P& pe, Rng& r) {
    S t;
    std::unique_ptr<resource_directory> a, b;
    { Lib l; a.reset(new resource_directory(get_resources(pe))); b.reset(new resource_directory(*a)); }
    { Lib l; resource_directory& same = *b; *b = same; a->clear_resource_directory_entry_list(); *a = *b;
      if (!b->get_entry_list().empty()) { resource_directory_entry e(b->get_entry_list()[0]); a->add_resource_directory_entry(e); e = a->get_entry_list().back(); } }
    t = tree_text(*a) + tree_text(*b);
    { Lib l; a.reset(); b.reset(); }
    return t;
  });
  // ---- edits of the image
  add(v, "save", false, {"rawptr"}, [](P& pe, Rng& r) {
    OutBuf b(r);
    bool chs = !r.chance(1, 5), bnd = !r.chance(1, 5);
    { Lib l; rebuild_pe(pe, *b.os, false, chs, bnd); }
    b.os->flush();
    return hs(b.bytes);
  });
  add(v, "save-strip-dos", false, {"rawptr", "hdr", "rich"}, [](P& pe, Rng& r) {
    OutBuf b(r);
    { Lib l; rebuild_pe(pe, *b.os, true); }
    b.os->flush();
    return hs(b.bytes);
  });
  add(v, "save-and-reload", true, {}, [](P& pe, Rng& r) {
    OutBuf b(r);
    { Lib l; P c(pe); rebuild_pe(c, *b.os); }
    b.os->flush();
    IoCfg ic;
    SimBuf in(&b.bytes, nullptr, ic);
    std::istream is(&in);
    std::unique_ptr<P> q;
    { Lib l; q.reset(new P(pe_factory::create_pe(is))); }
    S t = lib_everything(*q, false);
    { Lib l; q.reset(); }
    return hs(t);
  });
  add(v, "rebuild-imports", false, {"imp"}, [](P& pe, Rng& r) {
    Out o;
    int mode = (int)r.below(5);
    size_t off = r.below(40);
    Lib l;
    imported_functions_list f = get_imported_functions(pe);
    if (r.chance(1, 2)) {
      import_library lib;
      lib.set_name("simulated.dll");
      imported_function fn;
      fn.set_name("function");
      fn.set_iat_va(pe.get_pe_type() == pe_type_32 ? 0x12345678 : 0x123456789abcull);
      lib.add_import(fn);
      fn.set_name(""); fn.set_ordinal(7);
      lib.add_import(fn);
      f.push_back(lib);
    }
    import_rebuilder_settings st(true, r.chance(1, 4));
    st.set_offset_from_section_start((uint32_t)off);
    if (mode == 1) st.build_original_iat(false);
    if (mode == 2) { st.save_iat_and_original_iat_rvas(true, false); }
    if (mode == 3) { st.save_iat_and_original_iat_rvas(true, true); st.fill_missing_original_iats(true); }
    st.enable_auto_strip_last_section(r.chance(1, 2));
    o(dirtext(rebuild_imports(pe, f, room(pe, off + r.below(600), ".nimp"), st)));
    return o.r;
  });
  add(v, "rebuild-exports", false, {"exp"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    export_info info;
    exported_functions_list f = get_exported_functions(pe, info);
    if (r.chance(1, 2)) { exported_function x; x.set_rva(0x1000); x.set_name("simulated"); x.set_ordinal(f.empty() ? 5 : (uint16_t)(get_export_ordinal_limits(f).second + 1)); f.push_back(x); if (info.get_name().empty()) info.set_name("x.dll"); }
    o(dirtext(rebuild_exports(pe, info, f, room(pe, r.below(600), ".nexp"), 0, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "rebuild-relocations", false, {"rel"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    relocation_table_list f = get_relocations(pe, r.chance(1, 3));
    o(dirtext(rebuild_relocations(pe, f, room(pe, r.below(600), ".nrel"), 0, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "rebuild-resources", false, {"res"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    resource_directory root = get_resources(pe);
    if (r.chance(1, 2)) { pe_resource_manager m(root); m.add_resource("simulated data", pe_resource_viewer::resource_rcdata, 77, 1033, 1252); m.add_resource("more", L"NAMED", L"ENTRY", 1033); }
    o(dirtext(rebuild_resources(pe, root, room(pe, r.below(600), ".nres"), (uint32_t)r.below(3) * 8, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "rebuild-tls", false, {"tls"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    tls_info t = get_tls_info(pe);
    bool more = r.chance(1, 3), longer = r.chance(1, 3);
    if (more) { t.add_tls_callback(0x1010); }
    if (longer) { std::string d = t.get_raw_data(); d += "tls data"; t.set_raw_data(d); }
    uint32_t at_cb = 64, at_raw = 64 + 8 * ((uint32_t)t.get_tls_callbacks().size() + 1), all = at_raw + (uint32_t)t.get_raw_data().size();
    section& sec = room(pe, (more || longer ? all : 64) + r.below(600), ".ntls");
    if (more) t.set_callbacks_rva(sec.get_virtual_address() + at_cb);     // what became longer gets a place of its own
    if (longer) { t.set_raw_data_start_rva(sec.get_virtual_address() + at_raw); t.recalc_raw_data_end_rva(); }
    bool cb = r.chance(1, 2), dt = r.chance(1, 2);
    o(dirtext(rebuild_tls(pe, t, sec, 0, cb, dt, r.chance(1, 2) ? tls_data_expand_raw : tls_data_expand_virtual, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "rebuild-config", false, {"cfg"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    image_config_info c = get_image_config(pe);
    if (r.chance(1, 2)) { c.add_lock_prefix_rva(0x1001); if (pe.get_pe_type() == pe_type_32) c.add_se_handler_rva(0x1002); }
    bool a = r.chance(1, 2), b = r.chance(1, 2);
    o(dirtext(rebuild_image_config(pe, c, room(pe, r.below(600), ".ncfg"), 0, a, b, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "rebuild-bound", false, {"bnd"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    bound_import_module_list m = get_bound_import_module_list(pe);
    if (r.chance(1, 2)) { bound_import b("bound.dll", 5); b.add_module_ref(bound_import_ref("ref.dll", 6)); m.push_back(b); }
    o(dirtext(rebuild_bound_imports(pe, m, room(pe, r.below(600), ".nbnd"), 0, true, r.chance(1, 2))));
    return o.r;
  });
  add(v, "remove-directory", false, {"imp", "exp", "rel", "tls", "cfg", "bnd", "res", "dbg", "exc", "net", "hdr"}, [](P& pe, Rng& r) { Lib l; uint32_t i = (uint32_t)r.below(16); pe.remove_directory(i); return num(i); });
  add(v, "strip-directories", false, {"imp", "exp", "rel", "tls", "cfg", "bnd", "res", "dbg", "exc", "net", "hdr"}, [](P& pe, Rng& r) { Lib l; return num(pe.strip_data_directories((uint32_t)r.below(18), r.chance(1, 2))); });
  add(v, "add-section", false, {"hdr", "secs"}, [](P& pe, Rng& r) {
    S data(r.below(3000), 'q');
    Lib l;
    section s;
    s.set_name("added");
    s.readable(true).executable(r.chance(1, 2));
    s.set_raw_data(data);
    s.set_virtual_size((uint32_t)r.below(0x5000));
    section& x = pe.add_section(s);
    return sec_text(x);
  });
  add(v, "expand-section", false, {"hdr", "secs"}, [](P& pe, Rng& r) {
    size_t i = r.chance(2, 3) ? (pe.get_image_sections().empty() ? any_section(pe, r) : pe.get_image_sections().size() - 1) : any_section(pe, r);
    section& s = pe.get_image_sections()[i];
    uint32_t rva = s.get_virtual_address() + (uint32_t)r.below(s.get_virtual_size() + 1), n = (uint32_t)r.below(0x4000);
    Lib l;
    bool b = pe.expand_section(s, rva, n, r.chance(1, 2) ? pe_base::expand_section_raw : pe_base::expand_section_virtual);
    return num(b);
  });
  add(v, "set-section-virtual-size", false, {"hdr", "secs"}, [](P& pe, Rng& r) {
    size_t i = any_section(pe, r);
    Lib l;
    pe.set_section_virtual_size(pe.get_image_sections()[pe.get_image_sections().size() - 1 - (r.chance(3, 4) ? 0 : i)], (uint32_t)r.below(0x8000));
    return S("done");
  });
  add(v, "recalculate-section", false, {"hdr", "secs"}, [](P& pe, Rng& r) { size_t i = any_section(pe, r); Lib l; pe.recalculate_section_sizes(pe.get_image_sections()[i], r.chance(1, 2)); return S("done"); });
  add(v, "prepare-section", false, {"hdr", "secs"}, [](P& pe, Rng& r) { size_t i = any_section(pe, r); Lib l; pe.prepare_section(pe.get_image_sections()[i]); return S("done"); });
  add(v, "realign-section", false, {"hdr", "secs"}, [](P& pe, Rng& r) { size_t i = any_section(pe, r); Lib l; pe.realign_section((uint32_t)i + (r.chance(1, 8) ? 99 : 0)); return S("done"); });
  add(v, "realign-all", false, {"hdr", "secs"}, [](P& pe, Rng& r) { Lib l; pe.realign_all_sections(); return S("done"); });
  add(v, "realign-file", false, {"hdr", "secs"}, [](P& pe, Rng& r) { static const uint32_t a[] = {0x200, 0x400, 0x1000, 0x800, 1, 0x300, 0}; Lib l; pe.realign_file(a[r.below(7)]); return S("done"); });
  add(v, "update-sizes", false, {"hdr"}, [](P& pe, Rng& r) { Lib l; pe.update_image_size(); return num(pe.update_number_of_sections()); });
  add(v, "header-setters", false, {"hdr"}, [](P& pe, Rng& r) {
    Out o; Lib l;
    uint32_t x = (uint32_t)r.next();
    switch (r.below(12)) {
      case 0: pe.set_subsystem((uint16_t)x); break;
      case 1: pe.set_os_version((uint16_t)x, (uint16_t)(x >> 16)); break;
      case 2: pe.set_file_alignment(1u << (8 + x % 9)); break;
      case 3: pe.set_ep(x); break;
      case 4: pe.set_number_of_rvas_and_sizes(x % 17); break;
      case 5: pe.set_characteristics_flags((uint16_t)x); break;
      case 6: pe.set_dll_characteristics((uint16_t)x); break;
      case 7: if (pe.get_pe_type() == pe_type_32) { pe.set_image_base(x); pe.set_stack_size_commit(x); pe.set_heap_size_reserve(x); } else { pe.set_image_base_64((uint64_t)x << 16); pe.set_stack_size_commit((uint64_t)x << 16); pe.set_heap_size_reserve((uint64_t)x << 16); } break;
      case 8: pe.set_time_date_stamp(x); pe.set_checksum(~x); break;
      case 9: pe.set_machine((uint16_t)x); pe.set_base_of_code(x); break;
      case 10: pe.set_subsystem_version((uint16_t)x, (uint16_t)(x >> 16)); break;
      default: { uint32_t i = x % 18; pe.set_directory_rva(i, x >> 3); pe.set_directory_size(i, x >> 7); }
    }
    return o.r;
  });
  add(v, "stub", false, {"hdr", "rich"}, [](P& pe, Rng& r) {
    S d(r.below(300), 's');
    Lib l;
    switch (r.below(3)) {
      case 0: pe.strip_stub_overlay(); break;
      case 1: pe.fill_stub_overlay('f'); break;
      default: pe.set_stub_overlay(d);
    }
    return hs(pe.get_stub_overlay());
  });
  add(v, "rebase", false, {"imp", "exp", "rel", "tls", "cfg", "bnd", "res", "dbg", "exc", "net", "hdr", "secs"}, [](P& pe, Rng& r) {
    Lib l;
    relocation_table_list t = get_relocations(pe);
    rebase_image(pe, t, pe.get_pe_type() == pe_type_32 ? (r.next() & 0x7fff0000ull) : (r.next() & 0x7ffffff0000ull));
    return num(t.size());
  });
  return v;
}

std::vector<FileCall> make_file() {
  std::vector<FileCall> v;
  auto run = [](const std::string& b, Rng& r, const std::function<S(std::istream&)>& f) {
    static const uint32_t ch[] = {0, 4096, 512, 64};
    IoCfg c;
    c.chunk = ch[r.below(4)];
    SimBuf sb(&b, nullptr, c);
    std::istream in(&sb);
    return f(in);
  };
  v.push_back({"create_pe", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { std::unique_ptr<P> p; { Lib l; p.reset(new P(pe_factory::create_pe(in, false))); } S t = lib_everything(*p, false); { Lib l; p.reset(); } return t; }); }});
  v.push_back({"create_pe-no-debug", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { std::unique_ptr<P> p; { Lib l; p.reset(new P(pe_factory::create_pe(in, false, false))); } S t = lib_everything(*p, false); { Lib l; p.reset(); } return t; }); }});
  v.push_back({"create_pe-mapped", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { std::unique_ptr<P> p; { Lib l; p.reset(new P(pe_factory::create_pe(in, true))); } S t = lib_everything(*p, false); { Lib l; p.reset(); } return t; }); }});
  v.push_back({"constructor", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { std::unique_ptr<P> p; bool x = r.chance(1, 2); { Lib l; p.reset(x ? new P(in, pe_properties_32(), false) : new P(in, pe_properties_64(), false)); } S t = lib_everything(*p, false); { Lib l; p.reset(); } return t; }); }});
  v.push_back({"get_pe_type", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { Lib l; return num(pe_base::get_pe_type(in)); }); }});
  v.push_back({"read_dos_header", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { pe_win::image_dos_header h; Lib l; pe_base::read_dos_header(in, h); return num(h.e_lfanew); }); }});
  v.push_back({"checksum", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { Lib l; return num(calculate_checksum(in)); }); }});
  v.push_back({"entropy", [run](const S& b, Rng& r) { return run(b, r, [&](std::istream& in) { double e; { Lib l; e = entropy_calculator::calculate_entropy(in); } return fmt("%.9f", e); }); }});
  return v;
}
}  // namespace

const std::vector<Call>& api_calls() { static const std::vector<Call> v = make(); return v; }
const std::vector<FileCall>& file_calls() { static const std::vector<FileCall> v = make_file(); return v; }

std::string perform(const Call& c, pe_base& pe, uint64_t seed) {
  Rng r(seed);
  try { return "ok " + c.fn(pe, r); }
  catch (const pe_exception& e) { return std::string("refused: ") + e.what(); }
}
std::string perform(const FileCall& c, const std::string& b, uint64_t seed) {
  Rng r(seed);
  try { return "ok " + c.fn(b, r); }
  catch (const pe_exception& e) { return std::string("refused: ") + e.what(); }
}

}  // namespace sim
