// Facts: what an image says, in a canonical form, obtained in three independent
// ways - from the library's readers (libfacts.cpp), from an independent parser of
// file bytes (refpe.cpp), and from the reference model kept by a session.
#pragma once
#include "core.h"
#include <array>

namespace pe_bliss { class pe_base; class section; class resource_directory; }

namespace sim {

typedef std::map<std::string, std::string> KV;

struct ImpFunc { bool named = false; std::string name; uint32_t hint = 0, ord = 0; uint64_t iat = 0; };
struct ImpLib { std::string name; uint32_t ts = 0; bool has_orig = false; uint32_t iat_rva = 0, orig_rva = 0; std::vector<ImpFunc> f; };
struct ExpFunc { uint32_t ord = 0, rva = 0; bool named = false; std::string name; bool fwd = false; std::string fwd_name; };
struct ExpInfo { bool present = false; uint32_t chars = 0, ts = 0, major = 0, minor = 0, base = 0, nfuncs = 0, nnames = 0; std::string name; std::vector<ExpFunc> f; };
struct RelTable { uint32_t rva = 0; std::vector<uint16_t> items; };
struct TlsFacts { bool present = false; uint32_t start = 0, end = 0, index = 0, cbs = 0, zero = 0, chars = 0; std::string raw; std::vector<uint32_t> cb; };
struct CfgFacts {
  bool present = false;
  uint32_t ts = 0, major = 0, minor = 0, gfc = 0, gfs = 0, cst = 0, phf = 0, csd = 0;
  uint64_t dcf = 0, dct = 0, lpt = 0, mas = 0, vmt = 0, pam = 0, edit = 0, cookie = 0, seht = 0, sehc = 0;
  std::vector<uint32_t> seh, lock;
};
struct BndRef { std::string name; uint32_t ts = 0; };
struct BndMod { std::string name; uint32_t ts = 0; std::vector<BndRef> refs; };
// Resource tree flattened: one leaf per (type, name, language) path.
struct ResKey {
  // each level: name (UTF-16 code units) or id
  bool named[3] = {false, false, false};
  std::u16string name[3];
  uint32_t id[3] = {0, 0, 0};
  std::string text() const;
  bool operator<(const ResKey& o) const;
};
struct ResLeaf { uint32_t codepage = 0; std::string data; };
typedef std::map<ResKey, ResLeaf> ResMap;

std::string text(const std::vector<ImpLib>& v, bool with_iat = true);
std::string text(const ExpInfo& e);
std::string text(const std::vector<RelTable>& v);
std::string text(const TlsFacts& t);
std::string text(const CfgFacts& c);
std::string text(const std::vector<BndMod>& v);
std::string text(const ResMap& m);
std::string esc(const std::string& s);
std::string diff(const std::string& a, const std::string& b);   // short description of first difference
std::string diff(const KV& a, const KV& b);

// ------------------------------------------------------------ independent parser
struct RefSec {
  std::string name;   // up to 8 bytes, cut at the first NUL
  std::string raw_name;
  uint32_t vsize = 0, va = 0, rawsize = 0, rawptr = 0, chars = 0;
  std::string header; // 40 raw bytes
  std::string data;   // bytes from the file (rawsize of them)
  std::string effective(uint32_t falign, uint32_t salign) const;  // what a loader exposes as raw data
};
struct RefPe {
  bool ok = false;
  std::string err;
  std::string bytes;
  bool plus = false;
  uint32_t lfanew = 0, nt_off = 0, opt_off = 0, sec_off = 0, nt_size = 0;
  uint32_t ndirs = 0;
  KV hdr;             // header fields
  std::string stub;
  std::vector<std::pair<uint32_t, uint32_t>> dirs;
  uint32_t falign = 0, salign = 0, size_of_headers = 0, size_of_image = 0;
  uint64_t image_base = 0;
  std::vector<RefSec> secs;

  explicit RefPe(const std::string& b, bool from_mem = false);
  // virtual-space reads (headers, then sections with zero tails)
  bool rd(uint64_t rva, uint64_t n, std::string& out) const;
  bool u16(uint64_t rva, uint32_t& v) const;
  bool u32(uint64_t rva, uint32_t& v) const;
  bool u64(uint64_t rva, uint64_t& v) const;
  bool ptr(uint64_t rva, uint64_t& v) const { if (plus) return u64(rva, v); uint32_t x; if (!u32(rva, x)) return false; v = x; return true; }
  bool cstr(uint64_t rva, std::string& s) const;
  const RefSec* sec_of(uint64_t rva) const;
  uint64_t avail(uint64_t rva) const;   // bytes to the end of that section (virtual)
  std::pair<uint32_t, uint32_t> dir(unsigned i) const { return i < dirs.size() ? dirs[i] : std::make_pair(0u, 0u); }
  uint64_t psize() const { return plus ? 8 : 4; }

  // component facts; "absent", "error: ..." or canonical text
  std::string imports() const;
  std::string exports() const;
  std::string relocs() const;
  std::string tls() const;
  std::string config() const;
  std::string bound() const;
  std::string resources() const;
  std::string debug() const;
  std::string exceptions() const;
  std::string dotnet() const;
  std::string rich() const;
  std::string component(const std::string& c) const;
  // structural well-formedness of a saved file; empty when fine
  std::string layout_problems(bool contiguous = true, bool soh = true) const;
  bool resource_map(ResMap& m, std::string& err) const;
  std::string resource_headers() const;   // per directory: characteristics, time, version
  std::string export_lookup_problems() const;
  std::string resource_order_problems() const;
  std::string import_problems() const;
};
KV parse_nt(const std::string& nt, uint32_t ndirs_max = 16);   // header fields of raw NT header bytes

extern const std::vector<std::string> kComponents;   // imp exp rel tls cfg bnd res dbg exc net rich

// ------------------------------------------------------------ via the library
KV lib_header(const pe_bliss::pe_base& pe);            // through getters
std::string header_alias_problems(const pe_bliss::pe_base& pe);
KV lib_header_raw(const pe_bliss::pe_base& pe);        // raw NT header bytes
std::string lib_component(const pe_bliss::pe_base& pe, const std::string& c);
struct LibSec { std::string name; uint32_t va, vsize, rawsize, rawptr, chars; std::string data; };
std::vector<LibSec> lib_sections(const pe_bliss::pe_base& pe);
std::string stripz(std::string s);                      // without trailing zero bytes
// a single digest-able description of everything readable
std::string lib_everything(const pe_bliss::pe_base& pe, bool with_debug = true);
std::vector<ImpLib> lib_imports(const pe_bliss::pe_base& pe);
ExpInfo lib_exports(const pe_bliss::pe_base& pe);
std::vector<RelTable> lib_relocs(const pe_bliss::pe_base& pe, bool list_abs);
TlsFacts lib_tls(const pe_bliss::pe_base& pe);
CfgFacts lib_config(const pe_bliss::pe_base& pe);
std::vector<BndMod> lib_bound(const pe_bliss::pe_base& pe);
ResMap lib_resources(const pe_bliss::pe_base& pe);
void flatten(const pe_bliss::resource_directory& root, ResMap& out);
std::string resource_headers(const pe_bliss::resource_directory& root);
std::map<std::string, std::string> resource_header_map(const pe_bliss::resource_directory& root);   // path of directory -> header

inline uint32_t le16(const std::string& s, size_t o) { return (unsigned char)s[o] | (unsigned char)s[o + 1] << 8; }
inline uint32_t le32(const std::string& s, size_t o) { return le16(s, o) | le16(s, o + 2) << 16; }
inline uint64_t le64(const std::string& s, size_t o) { return le32(s, o) | (uint64_t)le32(s, o + 4) << 32; }
inline void put16(std::string& s, size_t o, uint32_t v) { s[o] = (char)v; s[o + 1] = (char)(v >> 8); }
inline void put32(std::string& s, size_t o, uint32_t v) { put16(s, o, v); put16(s, o + 2, v >> 16); }
inline void put64(std::string& s, size_t o, uint64_t v) { put32(s, o, (uint32_t)v); put32(s, o + 4, (uint32_t)(v >> 32)); }
template <class T> T alup(T v, uint64_t a) { return a ? (T)((v + a - 1) / a * a) : v; }

}  // namespace sim
