// One executor per property: generates a plan from a PRNG and runs a plan.
#pragma once
#include "session.h"

namespace sim {

struct RunInfo {
  bool nontrivial = false;
  std::string what;       // short description for evidence samples
};
struct Exec {
  const char* id;
  void (*gen)(Rng& r, Plan& p, bool thorough);
  void (*run)(const Plan& p, RunInfo& info);
  unsigned quick_runs, thorough_runs;
  const char* rule;       // what makes a run non-trivial
  const char* workload;   // one line
  const char* level;      // exploration | fault_enumeration
  bool leaks;             // leftover library allocations are a violation
  bool isolate = false;   // every run in a process of its own
};
const Exec* find_exec(const std::string& id);
std::vector<const Exec*> all_execs();
struct ExecReg { explicit ExecReg(const Exec* e); };

void pick_image(Rng& r, Op& o);
std::string image_of(const Op& o);
std::string damage(std::string b, int64_t how, uint64_t seed);
// a random edit history as for property `like` (session operations)
void gen_history(Rng& r, Plan& p, bool thorough, const std::string& like);
// answers C13's questions on standard input (run by the twin binary)
int twin_serve();
// helpers for executors
std::string small_image(Rng& r, uint64_t* kind_out = nullptr);

}  // namespace sim
