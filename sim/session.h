// A session: the client of the library. Holds several images, executes the
// operations of a plan on them, and keeps a model of what must be true.
#pragma once
#include "facts.h"
#include "simio.h"
#include <pe_bliss.h>
#include <pe_bliss_resources.h>
#include "resmodel.h"

namespace sim {
using pe_bliss::pe_base;

struct Facts {
  KV hdr;
  std::string stub, dos, full;
  bool overlay = false;
  std::vector<LibSec> secs;
  KV comp;
};
Facts read_facts(const pe_base& pe, const std::vector<std::string>* comps = nullptr);
std::string facts_diff(const Facts& want, const Facts& got, const std::set<std::string>& skip_hdr, const std::set<std::string>& skip_comp);
// base images: 0..8 the repository's sample files, >= 100 synthetic from the seed
std::string base_image(int kind, uint64_t seed);
int base_image_count();
bool synth_kind(int kind);

struct Place { bool ok = false; uint32_t va = 0, off = 0, end = 0; std::string hdrs; };   // hdrs: of resource directories
struct Slot {
  std::unique_ptr<pe_base> pe;
  Facts f;                       // expected facts
  std::string disk;              // durable file
  bool has_disk = false;
  Facts disk_f;                  // facts the durable file must give
  std::map<std::string, Place> place;
  std::map<std::string, Place> disk_place;
  std::set<uint32_t> imp_hosts;            // sections that ever received import data
  uint32_t arena_va = 0;
  uint32_t next_sec = 0;
  std::map<uint32_t, uint32_t> used_end;   // section va -> end of known content
  bool loaded_layout = false;    // debug payload offsets of the last loaded file still valid
};

struct Judge {
  std::set<std::string> comps;   // components whose content is judged
  bool header = false;           // header fields and stub
  bool sections = false;         // section bytes and attributes
  bool layout = false;           // saved file well formed
  bool problems = false;         // structural problems of judged components in the saved file
  bool resave = false;           // save / reload / save gives the same bytes
};

struct Variation {               // must not influence any result
  unsigned char poison = 0;
  uint64_t noise = 0;            // stream chunking, buffering, unrelated images
};

class Session {
 public:
  explicit Session(const std::string& prop);
  void run(const Plan& p);
  bool step(const Op& op);       // false: operation not applicable in this state (skipped)
  std::string prop;
  Judge J;
  Variation var;
  uint64_t trace = 14695981039346656037ull;
  std::vector<std::string> saves;      // bytes of every save, in order
  bool keep_saves = false;
  std::vector<std::unique_ptr<Slot>> slots;
  uint64_t executed = 0, faulted = 0;
  std::set<std::string> op_faults;     // what happened (for non-triviality)
  bool in_task = false;

  std::vector<std::string> need;       // components whose facts are kept
  Facts look(const pe_base& pe);
  const std::string& comp_now(Slot& s, const std::string& c);
  Slot* slot(const Op& op, const char* key = "s");
  Slot& fresh(int idx);
  void note(const std::string& s) { trace = fnv(s, trace); if (!in_task) EV("%s", s.c_str()); else g_log.ev(s); }
  [[noreturn]] void bad(const std::string& cls, const std::string& msg) { violate(prop + ":" + cls, msg); }

  // building blocks also used by the property executors
  void load(Slot& s, const std::string& bytes, uint64_t noise, bool mem = false);
  std::string save(pe_base& pe, uint64_t noise, bool strip = false, bool chsize = true, bool bound = true);
  void after(Slot& s, const std::string& what, const Facts& want, const std::set<std::string>& skip_hdr, const std::set<std::string>& skip_comp);
  bool attempt(Slot& s, const Op& op, const std::string& what, const std::function<void(pe_base&)>& fn, const std::set<std::string>& touched, bool may_refuse);
  void check_file(Slot& s, const std::string& bytes, const std::string& what, bool chs = true);

 private:
  bool op_new(const Op&), op_edit(const Op&), op_remove(const Op&), op_section(const Op&), op_header(const Op&), op_save(const Op&), op_restart(const Op&), op_copy(const Op&), op_rebase(const Op&), op_read(const Op&);
  bool op_arena(const Op&), op_stub(const Op&);
  bool res_steps(Slot& s, const Op& op, Rng& r, int amount, ResMap& model, std::vector<ResStep>& steps);
  void res_views(const pe_bliss::resource_directory& root, const ResMap& m, Rng r, const std::string& what);
  void res_views_of(Slot& s, const std::string& what);
  uint32_t add_section_to(pe_base& pe, const std::string& name, const std::string& raw, uint32_t vsize, bool writable);
};

std::string incoherence(const pe_base& pe);     // empty: section table and header agree
std::string memory_dump(const std::string& file);
std::string pad4(std::string s);
Judge judge_for(const std::string& prop);
extern const char* kCompDir[];         // directory index per component
int comp_dir(const std::string& c);

}  // namespace sim
