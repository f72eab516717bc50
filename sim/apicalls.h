// The library's entry points as a table of calls, used where a property ranges
// over "every call": damaged files, failing allocations, threads.
#pragma once
#include "session.h"

namespace sim {

struct Call {
  const char* name;
  bool readonly;                       // must leave the image exactly as it was
  std::set<std::string> touch;         // components it edits; "hdr": header fields, "secs": sections
  std::function<std::string(pe_base&, Rng&)> fn;
};
const std::vector<Call>& api_calls();
// performs the call; "ok ..." or "refused: ..."; lets memory errors escape
std::string perform(const Call& c, pe_base& pe, uint64_t seed);
// calls that take a file rather than an image
struct FileCall {
  const char* name;
  std::function<std::string(const std::string& bytes, Rng&)> fn;
};
const std::vector<FileCall>& file_calls();
std::string perform(const FileCall& c, const std::string& bytes, uint64_t seed);

}  // namespace sim
