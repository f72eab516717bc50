// Session properties: random edit histories against the model.
#include "exec.h"

namespace sim {

static int pick_kind(Rng& r, const std::string& prop) {
  int w = (int)r.below(20);
  if (w < 6) return 50 + (int)r.below(2);
  if (w < 15) return 100 + (int)r.below(64);
  if (w < 17) return 2 + (int)r.below(2);
  if (prop == "C04" && w == 17) return (int)r.below(2);
  static const int big[] = {0, 1, 7, 7, 8, 4, 5, 6};
  return r.chance(1, 3) ? big[r.below(8)] : 100 + (int)r.below(64);
}

static void noise_arg(Op& o, Rng& r) {
  o.set("noise", (int64_t)r.below(1000));
  if (r.chance(1, 8)) o.set("strip", 1);
  if (r.chance(1, 6)) o.set("chs", 0);
  if (r.chance(1, 6)) o.set("bnd", 0);
}

void gen_history(Rng& r, Plan& p, bool thorough, const std::string& prop) {
  std::vector<int> comps;
  if (prop == "C02") comps = {0};
  else if (prop == "C03") comps = {1};
  else if (prop == "C04") comps = {2};
  else if (prop == "C07") comps = {3, 4, 5};
  else if (prop == "C05" || prop == "C06") comps = {6};
  else if (prop == "C08") comps = {0, 1, 2, 3, 4, 5, 6};
  bool faults = r.chance(1, 3) && prop != "C01";
  int nslots = prop == "C08" && r.chance(1, 4) ? 2 : 1;
  int kind = pick_kind(r, prop);
  for (int s = 0; s < nslots; ++s)
    p.add("new").set("s", s).set("kind", s ? pick_kind(r, prop) : kind).set("seed", (int64_t)(r.next() >> 20)).set("dll", r.below(2)).set("align", r.chance(1, 4) ? 0x2000 : 0x1000);
    if (r.chance(1, 4)) p.ops.back().set("sub", 1 + (int64_t)r.below(14));
  if (r.chance(1, 2) || comps.empty()) p.add("section").set("mode", 0).set("seed", (int64_t)(r.next() >> 20));
  bool arena = !comps.empty() && r.chance(2, 5);
  if (arena) p.add("arena").set("seed", (int64_t)(r.next() >> 20));
  int n = 3 + (int)r.below(thorough ? 28 : 12);
  for (int i = 0; i < n; ++i) {
    int w = (int)r.below(20);
    int s = (int)r.below(nslots);
    if (!comps.empty() && w < 9) {
      int c = comps[r.below(comps.size())];
      Op& o = p.add("edit").set("s", s).set("c", c).set("place", r.chance(1, 25) ? 4 : r.chance(1, 6) ? 3 : arena ? (int64_t)r.below(3) : (int64_t)r.below(2)).set("n", 1 + r.below(thorough ? 12 : 6)).set("seed", (int64_t)(r.next() >> 20));
      o.set("off", r.chance(1, 2) ? 0 : r.below(64)).set("strip", r.below(2)).set("raw", r.chance(1, 2) ? 0 : r.below(2048));
      if (c == 0) { o.set("mode", r.chance(1, 2) ? 0 : r.below(5)); o.set("ziat", r.chance(1, 6)); }
      if (c == 2) { o.set("types", r.chance(1, 5)); o.set("abs", r.chance(1, 5)); o.set("clear", r.chance(1, 8)); }
      if (c == 3) o.set("expand", r.chance(1, 3));
      if (c == 5 && r.chance(1, 12)) o.set("many", 1);
      if (c == 6 && (prop == "C06" || r.chance(2, 3))) { o.set("man", 1).set("typed", prop == "C06" || r.chance(1, 4)); if (faults && r.chance(1, 2)) o.set("sf", 1); }
      if (r.chance(1, 3)) o.set("rmw", 1);
      if (r.chance(1, 20)) o.set("unattached", 1);
      if (faults && r.chance(1, 3)) { o.set("af", r.below(1000)); if (r.chance(1, 3)) o.set("an", 1 + r.below(5)); }
    } else if (!comps.empty() && w == 9) {
      p.add("remove").set("s", s).set("c", comps[r.below(comps.size())]);
    } else if (prop == "C04" && w < 13) {
      Op& o = p.add("rebase").set("s", s).set("seed", (int64_t)(r.next() >> 20));
      if (r.chance(1, 6)) o.set("badentry", 1);
      if (r.chance(1, 4)) o.set("to", 0x10000000);
      if (faults && r.chance(1, 3)) o.set("af", r.below(1000));
    } else if (w < 12) {
      Op& o = p.add("section").set("s", s).set("mode", r.below(prop == "C01" ? 8 : 4)).set("seed", (int64_t)(r.next() >> 20));
      if (faults && r.chance(1, 4)) o.set("af", r.below(1000));
    } else if (w < 14) {
      Op& o = p.add("header").set("s", s).set("f", r.below(16)).set("seed", (int64_t)(r.next() >> 20));
      if (faults && r.chance(1, 4)) o.set("af", r.below(1000));
    } else if (w == 14) {
      if (prop == "C01" || prop == "C08") p.add("stub").set("s", s).set("mode", r.below(3)).set("seed", (int64_t)(r.next() >> 20));
      else p.add("read").set("s", s).set("n", r.below(6)).set("seed", (int64_t)(r.next() >> 20));
    } else if (w == 15) p.add("read").set("s", s).set("n", r.below(6)).set("seed", (int64_t)(r.next() >> 20));
    else if (w == 16) p.add("copy").set("s", s).set("t", (s + 1) % (nslots + 1)).set("how", r.below(2));
    else if (w < 18) noise_arg(p.add("restart").set("s", s), r);
    else if (w == 18) noise_arg(p.add("save").set("s", s), r);
    else noise_arg(p.add(r.chance(1, 3) ? "dump" : "crash").set("s", s), r);
  }
  noise_arg(p.add("restart").set("s", 0), r);
}

static void gen_session(Rng& r, Plan& p, bool thorough) { gen_history(r, p, thorough, p.property); }

static void run_session(const Plan& p, RunInfo& info) {
  Session s(p.property);
  s.var.poison = (unsigned char)(p.seed * 37 + 1);
  s.run(p);
  int edits = 0, saves = 0;
  for (auto& o : p.ops) { if (o.name == "edit" || o.name == "section" || o.name == "header" || o.name == "stub" || o.name == "rebase" || o.name == "remove" || o.name == "resman") ++edits; if (o.name == "save" || o.name == "restart" || o.name == "crash") ++saves; }
  info.nontrivial = edits >= 1 && saves >= 1 && s.executed >= 3;
}

#define SESSION_EXEC(ID, Q, T, W) \
  static const Exec ex_##ID = {#ID, gen_session, run_session, Q, T, "at least one edit and one save or restart were executed.", W, "exploration", false}; \
  static ExecReg reg_##ID(&ex_##ID);
SESSION_EXEC(C01, 20000, 1200000, "histories of section, header and stub edits with saves, restarts, crashes (reload of the last durable file) and copies on fresh, sample and synthetic images.")
SESSION_EXEC(C02, 16000, 1200000, "histories of import edits under all rebuilder settings, at several placements, with saves, restarts, crashes, copies, section and header edits and allocation failures with retry.")
SESSION_EXEC(C03, 20000, 1200000, "histories of export edits (ordinals, names, forwarders, information fields) with saves, restarts, crashes, copies, section and header edits and allocation failures with retry.")
SESSION_EXEC(C04, 20000, 1200000, "histories of relocation edits and rebases with saves, restarts, crashes, copies, refused rebases and allocation failures with retry.")
SESSION_EXEC(C05, 20000, 1200000, "histories of resource manager steps (add, replace, remove by type, entry and language, by id and by name) and whole tree edits, every listing, counting and lookup call compared with a map model after every step, with rebuilds, saves, restarts, crashes, copies and allocation failures with retry.")
SESSION_EXEC(C06, 12000, 1200000, "histories of bitmap, icon, cursor, version, string table and message table steps, typed readers compared with independent decoders after every step, with rebuilds, saves, restarts, crashes, copies and allocation failures with retry.")
SESSION_EXEC(C07, 20000, 1200000, "histories of TLS, load configuration and bound import edits with saves, restarts, crashes, copies and allocation failures with retry.")
SESSION_EXEC(C08, 15000, 1200000, "histories mixing edits of all seven rebuildable directories, removals, sections, headers and stub over up to two images and their copies, with saves, restarts, crashes and allocation failures with retry.")

}  // namespace sim
