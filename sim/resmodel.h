// Resources: steps of a resource manager client, the map model they are compared
// with, and independent decoders of typed resource data.
#pragma once
#include "facts.h"
#include <functional>
#include <pe_bliss.h>
#include <pe_bliss_resources.h>

namespace sim {

struct VerSpec {                       // what a version block says
  std::array<uint32_t, 10> fixed{};    // file ms/ls, product ms/ls, flags, os, type, subtype, date ms/ls
  bool has_fixed = false;
  std::map<std::u16string, std::map<std::u16string, std::u16string>> strings;
  std::multimap<uint16_t, uint16_t> tr;
};
enum ResKind {
  RS_ADD, RS_RM_TYPE, RS_RM_ENTRY, RS_RM_LANG,
  RS_BMP, RS_RM_BMP, RS_ICON, RS_RM_ICON, RS_CUR, RS_RM_CUR, RS_VER, RS_VER_EDIT, RS_RM_VER,
  RS_KINDS
};
struct ResStep {
  int kind = RS_ADD;
  ResKey key;             // root, entry, language
  uint32_t cp = 0, ts = 0;
  int mode = 0;           // id placement of icons and cursors
  std::string data;       // leaf bytes or file
  VerSpec ver;
  uint64_t seed = 0;      // for version editor scripts
  std::string text() const;
};
ResStep rnd_step(Rng& r, const ResMap& m, bool typed);
// performs the step on the library's tree; "ok", "true", "false" or "throws"; lets memory errors escape
std::string lib_step(const ResStep& s, pe_bliss::resource_directory& root);
// the step on the model; `after` is the library's tree after the step (version blocks are decoded from it)
std::string model_step(const ResStep& s, ResMap& m, const ResMap& after, std::string& problem);
// compares every listing, counting and lookup call with the map; empty when they agree
std::string view_problem(const pe_bliss::resource_directory& root, const ResMap& m, Rng& r);
// compares the typed readers with independent decoders
std::string typed_problem(const pe_bliss::resource_directory& root, const ResMap& m, Rng& r);

bool decode_version(const std::string& d, VerSpec& v);
std::string text(const VerSpec& v);
std::string encode_version(const VerSpec& v);
std::string rnd_string_table(Rng& r);
std::string rnd_message_table(Rng& r);

// edits one version information object step by step; `faulted(clean, real)` runs clean() undisturbed, real() with
// failing allocations, and says whether real() completed; returns the first difference from the model
std::string version_object_problem(Rng r, const std::function<bool(const std::function<void()>&, const std::function<void()>&)>& faulted);

}  // namespace sim
