// Facts obtained through the library's own readers.
#include "facts.h"
#include <pe_bliss.h>
#include <pe_bliss_resources.h>
using namespace pe_bliss;

namespace sim {

static std::string u(uint64_t v) { return fmt("%llu", (unsigned long long)v); }

KV lib_header_raw(const pe_base& pe) {
  return parse_nt(std::string(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()));
}

KV lib_header(const pe_base& pe) {
  Lib l;
  KV h;
  h["machine"] = u(pe.get_machine());
  h["signature"] = u(pe.get_pe_signature());
  h["nsections"] = u(pe.get_number_of_sections());
  h["timestamp"] = u(pe.get_time_date_stamp());
  h["size_of_opt"] = u(pe.get_size_of_optional_header());
  h["characteristics"] = u(pe.get_characteristics());
  h["magic"] = u(pe.get_magic());
  h["ep"] = u(pe.get_ep());
  h["base_of_code"] = u(pe.get_base_of_code());
  h["image_base"] = u(pe.get_image_base_64());
  h["section_alignment"] = u(pe.get_section_alignment());
  h["file_alignment"] = u(pe.get_file_alignment());
  h["os_major"] = u(pe.get_major_os_version());
  h["os_minor"] = u(pe.get_minor_os_version());
  h["sub_major"] = u(pe.get_major_subsystem_version());
  h["sub_minor"] = u(pe.get_minor_subsystem_version());
  h["size_of_image"] = u(pe.get_size_of_image());
  h["size_of_headers"] = u(pe.get_size_of_headers());
  h["checksum"] = u(pe.get_checksum());
  h["subsystem"] = u(pe.get_subsystem());
  h["dllchar"] = u(pe.get_dll_characteristics());
  h["stack_reserve"] = u(pe.get_stack_size_reserve_64());
  h["stack_commit"] = u(pe.get_stack_size_commit_64());
  h["heap_reserve"] = u(pe.get_heap_size_reserve_64());
  h["heap_commit"] = u(pe.get_heap_size_commit_64());
  uint32_t nd = pe.get_number_of_rvas_and_sizes();
  h["ndirs"] = u(nd);
  for (uint32_t i = 0; i < nd && i < 16; ++i) h[fmt("dir%02u", i)] = fmt("%x+%x", pe.get_directory_rva(i), pe.get_directory_size(i));
  return h;
}

// The same header field read in another way: width variants, out-parameter
// overloads and yes/no questions. Empty when they all agree.
std::string header_alias_problems(const pe_base& pe) {
  Lib l;
  std::string r;
  uint32_t a = 0; uint64_t b = 0;
#define PAIR(name) \
  pe.get_##name(a); pe.get_##name(b); \
  if (pe.get_##name##_32() != (uint32_t)pe.get_##name##_64() || a != (uint32_t)pe.get_##name##_64() || b != pe.get_##name##_64()) \
    r += fmt(#name ": %llx, 32-bit %x, out %x and %llx; ", (unsigned long long)pe.get_##name##_64(), pe.get_##name##_32(), a, (unsigned long long)b);
  PAIR(image_base) PAIR(heap_size_commit) PAIR(heap_size_reserve) PAIR(stack_size_commit) PAIR(stack_size_reserve)
#undef PAIR
  uint16_t ch = pe.get_characteristics();
  for (unsigned i = 0; i < 16; ++i)
    if (pe.check_characteristics_flag((uint16_t)(1u << i)) != !!(ch >> i & 1)) r += fmt("characteristics flag %x; ", 1u << i);
  if (pe.check_characteristics_flag(0)) r += "empty characteristics mask; ";
  if (pe.is_gui() != (pe.get_subsystem() == 2)) r += fmt("is_gui %d for subsystem %u; ", (int)pe.is_gui(), pe.get_subsystem());
  if (pe.is_console() != (pe.get_subsystem() == 3)) r += fmt("is_console %d for subsystem %u; ", (int)pe.is_console(), pe.get_subsystem());
  bool has[16];
  uint32_t nd = pe.get_number_of_rvas_and_sizes();
  for (uint32_t i = 0; i < 16; ++i) {
    has[i] = i < nd && pe.get_directory_rva(i) != 0;
    if (pe.directory_exists(i) != has[i]) r += fmt("directory_exists(%u) gives %d; ", i, (int)pe.directory_exists(i));
  }
  const struct { const char* n; bool got; unsigned i; } q[] = {
    {"exports", pe.has_exports(), 0}, {"imports", pe.has_imports(), 1}, {"resources", pe.has_resources(), 2}, {"exception_directory", pe.has_exception_directory(), 3},
    {"security", pe.has_security(), 4}, {"debug", pe.has_debug(), 6}, {"tls", pe.has_tls(), 9}, {"config", pe.has_config(), 10},
    {"bound_import", pe.has_bound_import(), 11}, {"delay_import", pe.has_delay_import(), 13}, {"dotnet", pe.is_dotnet(), 14}};
  for (auto& x : q)
    if (x.got != has[x.i]) r += fmt("has_%s gives %d; ", x.n, (int)x.got);
  if (pe.has_reloc() != (has[5] && !(ch & 1))) r += fmt("has_reloc gives %d; ", (int)pe.has_reloc());
  if (pe.get_pe_header_start() != pe.get_dos_header().e_lfanew) r += "pe_header_start; ";
  if ((pe.get_pe_type() == pe_type_32) != (pe.get_magic() != 0x20b)) r += "pe_type; ";
  for (auto& s : pe.get_image_sections())
    if (!pe.section_attached(s)) r += "section_attached denies a section of the image; ";
  section other;
  if (pe.section_attached(other)) r += "section_attached claims a foreign section; ";
  return r;
}

std::vector<LibSec> lib_sections(const pe_base& pe) {
  Lib l;
  std::vector<LibSec> r;
  for (auto& s : pe.get_image_sections()) {
    LibSec x;
    x.name = s.get_name();
    x.va = s.get_virtual_address();
    x.vsize = s.get_virtual_size();
    x.rawsize = s.get_size_of_raw_data();
    x.rawptr = s.get_pointer_to_raw_data();
    x.chars = s.get_characteristics();
    x.data = s.get_raw_data();
    r.push_back(x);
  }
  return r;
}

std::vector<ImpLib> lib_imports(const pe_base& pe) {
  imported_functions_list f;
  { Lib l; f = get_imported_functions(pe); }
  std::vector<ImpLib> r;
  for (auto& l : f) {
    ImpLib x;
    x.name = l.get_name();
    x.ts = l.get_timestamp();
    x.iat_rva = l.get_rva_to_iat();
    x.orig_rva = l.get_rva_to_original_iat();
    x.has_orig = x.orig_rva != 0;
    for (auto& g : l.get_imported_functions()) {
      ImpFunc y;
      y.named = g.has_name();
      y.name = g.get_name();
      y.hint = g.get_hint();
      y.ord = g.get_ordinal();
      y.iat = g.get_iat_va();
      x.f.push_back(y);
    }
    r.push_back(x);
  }
  return r;
}

ExpInfo lib_exports(const pe_base& pe) {
  ExpInfo e;
  export_info info;
  exported_functions_list v;
  { Lib l; e.present = pe.has_exports(); v = get_exported_functions(pe, info); }
  e.chars = info.get_characteristics(); e.ts = info.get_timestamp(); e.major = info.get_major_version(); e.minor = info.get_minor_version();
  e.base = info.get_ordinal_base(); e.nfuncs = info.get_number_of_functions(); e.nnames = info.get_number_of_names(); e.name = info.get_name();
  for (auto& f : v) {
    ExpFunc x;
    x.ord = f.get_ordinal(); x.rva = f.get_rva(); x.named = f.has_name(); x.name = f.get_name(); x.fwd = f.is_forwarded(); x.fwd_name = f.get_forwarded_name();
    e.f.push_back(x);
  }
  return e;
}

std::vector<RelTable> lib_relocs(const pe_base& pe, bool abs) {
  relocation_table_list t;
  { Lib l; t = get_relocations(pe, abs); }
  std::vector<RelTable> r;
  for (auto& x : t) {
    RelTable y;
    y.rva = x.get_rva();
    for (auto& e : x.get_relocations()) y.items.push_back(e.get_item());
    r.push_back(y);
  }
  return r;
}

TlsFacts lib_tls(const pe_base& pe) {
  TlsFacts t;
  tls_info i;
  { Lib l; t.present = pe.has_tls(); if (!t.present) return t; i = get_tls_info(pe); }
  t.start = i.get_raw_data_start_rva(); t.end = i.get_raw_data_end_rva(); t.index = i.get_index_rva(); t.cbs = i.get_callbacks_rva();
  t.zero = i.get_size_of_zero_fill(); t.chars = i.get_characteristics(); t.raw = i.get_raw_data();
  for (auto c : i.get_tls_callbacks()) t.cb.push_back(c);
  return t;
}

CfgFacts lib_config(const pe_base& pe) {
  CfgFacts c;
  std::unique_ptr<image_config_info> p;
  { Lib l; c.present = pe.has_config(); if (!c.present) return c; p.reset(new image_config_info(get_image_config(pe))); }
  auto& i = *p;
  c.ts = i.get_time_stamp(); c.major = i.get_major_version(); c.minor = i.get_minor_version(); c.gfc = i.get_global_flags_clear(); c.gfs = i.get_global_flags_set();
  c.cst = i.get_critical_section_default_timeout(); c.phf = i.get_process_heap_flags(); c.csd = i.get_service_pack_version();
  c.dcf = i.get_decommit_free_block_threshold(); c.dct = i.get_decommit_total_free_threshold(); c.lpt = i.get_lock_prefix_table_va(); c.mas = i.get_max_allocation_size();
  c.vmt = i.get_virtual_memory_threshold(); c.pam = i.get_process_affinity_mask(); c.edit = i.get_edit_list_va(); c.cookie = i.get_security_cookie_va();
  c.seht = i.get_se_handler_table_va(); c.sehc = i.get_se_handler_count();
  for (auto x : i.get_se_handler_rvas()) c.seh.push_back(x);
  for (auto x : i.get_lock_prefix_rvas()) c.lock.push_back(x);
  return c;
}

std::vector<BndMod> lib_bound(const pe_base& pe) {
  bound_import_module_list b;
  { Lib l; b = get_bound_import_module_list(pe); }
  std::vector<BndMod> r;
  for (auto& m : b) {
    BndMod x;
    x.name = m.get_module_name();
    x.ts = m.get_timestamp();
    for (auto& f : m.get_module_ref_list()) x.refs.push_back({f.get_module_name(), f.get_timestamp()});
    r.push_back(x);
  }
  return r;
}

static void flat(const resource_directory& d, int depth, ResKey key, ResMap& out) {
  for (auto& e : d.get_entry_list()) {
    ResKey k = key;
    if (depth < 3) {
      if (e.is_named()) { k.named[depth] = true; for (wchar_t c : e.get_name()) k.name[depth] += (char16_t)c; }
      else k.id[depth] = e.get_id();
    }
    if (e.includes_data()) {
      ResLeaf l;
      l.codepage = e.get_data_entry().get_codepage();
      l.data = e.get_data_entry().get_data();
      auto ins = out.insert({k, l});
      if (!ins.second) ins.first->second.data += "<duplicate>" + l.data;   // two entries with one key: never equal to anything stored once
    } else flat(e.get_resource_directory(), depth + 1, k, out);
  }
}
static void dir_headers(const resource_directory& d, const std::string& path, std::map<std::string, std::string>& m) {
  m[path] = fmt("%x %x %u.%u", d.get_characteristics(), d.get_timestamp(), d.get_major_version(), d.get_minor_version());
  for (auto& e : d.get_entry_list()) {
    if (e.includes_data()) continue;
    std::string k = fmt("/%u", e.get_id());
    if (e.is_named()) { k = "/n"; for (wchar_t c : e.get_name()) k += fmt("%x.", (unsigned)(char16_t)c); }
    dir_headers(e.get_resource_directory(), path + k, m);
  }
}
std::map<std::string, std::string> resource_header_map(const resource_directory& root) {
  std::map<std::string, std::string> m;
  dir_headers(root, "", m);
  return m;
}
std::string resource_headers(const resource_directory& root) {
  std::map<std::string, std::string> m = resource_header_map(root);
  std::string r;
  for (auto& kv : m) r += kv.first + " " + kv.second + "\n";
  return r;
}
void flatten(const resource_directory& root, ResMap& out) { flat(root, 0, ResKey(), out); }
ResMap lib_resources(const pe_base& pe) {
  resource_directory root;
  { Lib l; if (!pe.has_resources()) return ResMap(); root = get_resources(pe); }
  ResMap m;
  flatten(root, m);
  return m;
}

std::string dbg_entry_text(uint32_t chars, uint32_t ts, uint32_t maj, uint32_t min, uint32_t type, uint32_t size, uint32_t rva, uint32_t ptr);

// Facts that are offered twice agree with themselves.
static std::string twice_exports(const pe_base& pe) {
  export_info info;
  exported_functions_list v, w;
  Lib l;
  if (!pe.has_exports()) return "";
  v = get_exported_functions(pe, info);
  w = get_exported_functions(pe);
  std::string r;
  if (v.size() != w.size()) r += fmt(" listed %zu and %zu", v.size(), w.size());
  for (size_t i = 0; i < v.size() && i < w.size(); ++i)
    if (v[i].get_ordinal() != w[i].get_ordinal() || v[i].get_rva() != w[i].get_rva() || v[i].get_name() != w[i].get_name() || v[i].get_forwarded_name() != w[i].get_forwarded_name()) { r += fmt(" entry %zu differs between listings", i); break; }
  for (auto& f : v) {
    uint16_t want = f.has_name() ? (uint16_t)(f.get_ordinal() - info.get_ordinal_base()) : 0;
    if (f.get_name_ordinal() != want) { r += fmt(" name ordinal %u for ordinal %u", f.get_name_ordinal(), f.get_ordinal()); break; }
  }
  auto d = pe.section_data_from_rva<pe_win::image_export_directory>(pe.get_directory_rva(0), section_data_virtual, true);
  if (info.get_rva_of_functions() != d.AddressOfFunctions || info.get_rva_of_names() != d.AddressOfNames || info.get_rva_of_name_ordinals() != d.AddressOfNameOrdinals) r += " table addresses";
  if (!v.empty()) {
    auto lim = get_export_ordinal_limits(v);
    uint16_t lo = 0xffff, hi = 0;
    for (auto& f : v) { lo = std::min(lo, f.get_ordinal()); hi = std::max(hi, f.get_ordinal()); }
    if (lim.first != lo || lim.second != hi) r += fmt(" limits %u-%u", lim.first, lim.second);
    if (!exported_ordinal_exists(lo, v) || !exported_ordinal_exists(hi, v)) r += " a listed ordinal does not exist";
    for (auto& f : v)
      if (f.has_name() && !exported_name_exists(f.get_name(), v)) { r += " a listed name does not exist"; break; }
  }
  return r;
}
static std::string twice_bound(const pe_base& pe) {
  Lib l;
  std::string r;
  for (auto& m : get_bound_import_module_list(pe)) {
    if (m.get_module_ref_count() != m.get_module_ref_list().size()) r += " reference count";
    bound_import c(m);
    c.clear_module_refs();
    if (c.get_module_ref_count() || c.get_module_name() != m.get_module_name()) r += " cleared references";
  }
  return r;
}
static std::string twice_imports(const pe_base& pe) {
  Lib l;
  std::string r;
  for (auto& m : get_imported_functions(pe)) {
    import_library c(m);
    c.clear_imports();
    if (!c.get_imported_functions().empty() || c.get_name() != m.get_name() || c.get_rva_to_iat() != m.get_rva_to_iat() || c.get_timestamp() != m.get_timestamp()) r += " cleared library";
  }
  auto g = pe.get_pe_type() == pe_type_32 ? get_imported_functions_base<pe_types_class_32>(pe) : get_imported_functions_base<pe_types_class_64>(pe);
  if (g.size() != get_imported_functions(pe).size()) r += " direct listing";
  return r;
}
static std::string twice_tls(const pe_base& pe) {
  Lib l;
  if (!pe.has_tls()) return "";
  tls_info t = get_tls_info(pe);
  std::string r;
  tls_info c(t);
  c.clear_tls_callbacks();
  if (!c.get_tls_callbacks().empty() || c.get_index_rva() != t.get_index_rva() || c.get_raw_data() != t.get_raw_data()) r += " cleared callbacks";
  return r;
}
static std::string twice_config(const pe_base& pe) {
  Lib l;
  if (!pe.has_config()) return "";
  image_config_info t = get_image_config(pe), c(t);
  std::string r;
  c.clear_lock_prefix_list();
  if (!c.get_lock_prefix_rvas().empty() || c.get_se_handler_rvas() != t.get_se_handler_rvas()) r += " cleared lock prefixes";
  c = t;
  c.clear_se_handler_list();
  if (!c.get_se_handler_rvas().empty() || c.get_lock_prefix_rvas() != t.get_lock_prefix_rvas()) r += " cleared handlers";
  return r;
}
static void twice_res(const resource_directory& d, std::string& r, int depth) {
  if (depth > 32 || r.size() > 200) return;
  auto& v = d.get_entry_list();
  if ((size_t)d.get_number_of_named_entries() + d.get_number_of_id_entries() != v.size()) r += fmt(" counts %u+%u for %zu entries", d.get_number_of_named_entries(), d.get_number_of_id_entries(), v.size());
  size_t n = 0;
  for (auto& e : v) {
    if (++n <= 24) {
      auto& f = e.is_named() ? d.entry_by_name(e.get_name()) : d.entry_by_id(e.get_id());
      if (f.is_named() != e.is_named() || (e.is_named() ? f.get_name() != e.get_name() : f.get_id() != e.get_id())) r += " finder";
    }
    if (!e.includes_data()) twice_res(e.get_resource_directory(), r, depth + 1);
  }
}
static std::string twice_resources(const pe_base& pe) {
  Lib l;
  std::string r;
  twice_res(get_resources(pe), r, 0);
  return r;
}
static std::string twice(const pe_base& pe, const std::string& c, std::string t) {
  if (fnv(t) % 3) return t;   // the second reading is expensive: made for a third of all contents
  std::string r;
  if (c == "exp") r = twice_exports(pe);
  if (c == "imp") r = twice_imports(pe);
  if (c == "bnd") r = twice_bound(pe);
  if (c == "tls") r = twice_tls(pe);
  if (c == "cfg") r = twice_config(pe);
  if (c == "res") r = twice_resources(pe);
  return r.empty() ? t : t + "\nINCONSISTENT:" + r + "\n";
}

static std::string lib_debug(const pe_base& pe) {
  debug_info_list v;
  { Lib l; v = get_debug_information(pe); }
  std::string r;
  for (auto& d : v) {
    r += dbg_entry_text(d.get_characteristics(), d.get_time_stamp(), d.get_major_version(), d.get_minor_version(), d.get_type_raw(), d.get_size_of_data(), d.get_rva_of_raw_data(), d.get_pointer_to_raw_data());
    unsigned kind = 99;
    switch (d.get_type()) {
      case debug_info::debug_type_unknown: kind = 0; break;
      case debug_info::debug_type_coff: kind = 1; break;
      case debug_info::debug_type_codeview: kind = 2; break;
      case debug_info::debug_type_fpo: kind = 3; break;
      case debug_info::debug_type_misc: kind = 4; break;
      case debug_info::debug_type_exception: kind = 5; break;
      case debug_info::debug_type_fixup: kind = 6; break;
      case debug_info::debug_type_omap_to_src: kind = 7; break;
      case debug_info::debug_type_omap_from_src: kind = 8; break;
      case debug_info::debug_type_borland: kind = 9; break;
      case debug_info::debug_type_reserved10: kind = 10; break;
      case debug_info::debug_type_clsid: kind = 11; break;
    }
    r += fmt(" kind=%u", kind);
    Lib l;
    switch (d.get_advanced_info_type()) {
      case debug_info::advanced_info_none: break;
      case debug_info::advanced_info_pdb_7_0: {
        auto p = d.get_advanced_debug_info<pdb_7_0_info>();
        auto g = p.get_guid();
        r += " pdb7 guid=" + hexs(std::string((const char*)&g, 16)) + fmt(" age=%u ", p.get_age()) + esc(p.get_pdb_file_name());
        break;
      }
      case debug_info::advanced_info_pdb_2_0: {
        auto p = d.get_advanced_debug_info<pdb_2_0_info>();
        r += fmt(" pdb2 sig=%x age=%u ", p.get_signature(), p.get_age()) + esc(p.get_pdb_file_name());
        break;
      }
      case debug_info::advanced_info_misc: {
        auto p = d.get_advanced_debug_info<misc_debug_info>();
        r += fmt(" misc type=%u uni=%d ", p.get_data_type(), p.is_unicode() ? 1 : 0);
        if (p.is_unicode()) { for (wchar_t c : p.get_data_unicode()) r += fmt("%04x", (unsigned)c); }
        else r += esc(p.get_data_ansi());
        r += fmt(" exe=%d", (int)p.is_exe_name());
        break;
      }
      case debug_info::advanced_info_coff: {
        auto p = d.get_advanced_debug_info<coff_debug_info>();
        r += fmt(" coff n=%u lva=%x nl=%u lvl=%x c=%x-%x d=%x-%x", p.get_number_of_symbols(), p.get_lva_to_first_symbol(), p.get_number_of_line_numbers(), p.get_lva_to_first_line_number(),
                 p.get_rva_to_first_byte_of_code(), p.get_rva_to_last_byte_of_code(), p.get_rva_to_first_byte_of_data(), p.get_rva_to_last_byte_of_data());
        for (auto& s : p.get_symbols()) {
          if (s.is_file()) r += fmt("\n  file i=%u ty=%u ", s.get_index(), s.get_type()) + esc(s.get_symbol());
          else r += fmt("\n  sym i=%u cls=%u ty=%u sec=%u rva=%x ", s.get_index(), s.get_storage_class(), s.get_type(), s.get_section_number(), s.get_rva()) + esc(s.get_symbol());
        }
        break;
      }
      case debug_info::advanced_info_codeview_4_0: r += " cv4"; break;
      case debug_info::advanced_info_codeview_5_0: r += " cv5"; break;
      case debug_info::advanced_info_codeview: r += " cv"; break;
      default: r += " ?";
    }
    r += "\n";
  }
  return r;
}

std::string lib_component(const pe_base& pe, const std::string& c) {
  try {
    if (c == "imp") return twice(pe, c, text(lib_imports(pe)));
    if (c == "exp") return twice(pe, c, text(lib_exports(pe)));
    if (c == "rel") return text(lib_relocs(pe, false));
    if (c == "tls") return twice(pe, c, text(lib_tls(pe)));
    if (c == "cfg") return twice(pe, c, text(lib_config(pe)));
    if (c == "bnd") return twice(pe, c, text(lib_bound(pe)));
    if (c == "res") { { Lib l; if (!pe.has_resources()) return "absent"; } return twice(pe, c, text(lib_resources(pe))); }
    if (c == "dbg") return lib_debug(pe);
    if (c == "exc") {
      exception_entry_list v;
      { Lib l; v = get_exception_directory_data(pe); }
      std::string r;
      for (auto& e : v)
        r += fmt("fn %x-%x unwind=%x ver=%u flags=%u prolog=%u slots=%u reg=%u off=%u", e.get_begin_address(), e.get_end_address(), e.get_unwind_info_address(), e.get_unwind_info_version(),
                 e.get_flags(), e.get_size_of_prolog(), e.get_number_of_unwind_slots(), e.get_frame_pointer_register_number(), e.get_scaled_rsp_offset()) +
             fmt(" eh=%d uh=%d ch=%d fp=%d\n", (int)e.has_exception_handler(), (int)e.has_termination_handler(), (int)e.is_chaininfo(), (int)e.uses_frame_pointer());
      return r;
    }
    if (c == "net") {
      Lib l;
      if (!pe.is_dotnet()) return "";
      auto n = get_basic_dotnet_info(pe);
      std::string r = fmt("net %u.%u flags=%x ep=%x", n.get_major_runtime_version(), n.get_minor_runtime_version(), n.get_flags(), n.get_entry_point_rva_or_token());
      r += fmt(" native=%d b32=%d lib=%d il=%d", (int)n.is_native_entry_point(), (int)n.is_32bit_required(), (int)n.is_il_library(), (int)n.is_il_only());
      const uint32_t p[][2] = {{n.get_rva_of_metadata(), n.get_size_of_metadata()}, {n.get_rva_of_resources(), n.get_size_of_resources()},
        {n.get_rva_of_strong_name_signature(), n.get_size_of_strong_name_signature()}, {n.get_rva_of_code_manager_table(), n.get_size_of_code_manager_table()},
        {n.get_rva_of_vtable_fixups(), n.get_size_of_vtable_fixups()}, {n.get_rva_of_export_address_table_jumps(), n.get_size_of_export_address_table_jumps()},
        {n.get_rva_of_managed_native_header(), n.get_size_of_managed_native_header()}};
      for (auto& q : p) r += fmt(" %x+%x", q[0], q[1]);
      return r + "\n";
    }
    if (c == "rich") {
      rich_data_list v;
      { Lib l; v = get_rich_data(pe); }
      std::string r;
      for (auto& e : v) r += fmt("rich num=%u ver=%u times=%u\n", e.get_number(), e.get_version(), e.get_times());
      return r;
    }
  } catch (const pe_exception& e) {
    return std::string("error: ") + e.what();
  }
  return "?";
}

std::string lib_everything(const pe_base& pe, bool with_debug) {
  std::string r;
  for (auto& kv : lib_header_raw(pe)) r += kv.first + "=" + kv.second + "\n";
  { Lib l; r += "stub " + fmt("%016llx\n", (unsigned long long)fnv(pe.get_stub_overlay())); r += fmt("overlay %d\n", (int)pe.has_overlay());
    r += fmt("dos %016llx full %016llx\n", (unsigned long long)fnv(&pe.get_dos_header(), 64), (unsigned long long)fnv(pe.get_full_headers_data())); }
  for (auto& s : lib_sections(pe))
    r += "sec " + esc(s.name) + fmt(" %x %x %x %x %x len=%zx %016llx\n", s.va, s.vsize, s.rawsize, s.rawptr, s.chars, s.data.size(), (unsigned long long)fnv(s.data));
  for (auto& c : kComponents)
    if (with_debug || c != "dbg") r += "[" + c + "]\n" + lib_component(pe, c);
  return r;
}

}  // namespace sim
