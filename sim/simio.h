// Simulated storage: a disk with a volatile cache, and stream buffers over its
// files through which the library does all of its I/O.
#pragma once
#include "core.h"
#include <istream>
#include <ostream>
#include <streambuf>

namespace sim {

enum IoFaultKind {
  IO_NONE = 0,
  IO_FAIL = 1,     // the operation reports failure (premature end of file / seek -1 / tell -1 / write refused)
  IO_THROW = 2,    // the stream buffer throws
  IO_PARTIAL = 3,  // part of the data is transferred, then failure
  IO_FULL = 4,     // writes: device capacity reached (persistent)
};

struct IoCfg {
  uint32_t chunk = 0;        // bytes delivered per device read (0: everything)
  uint32_t obuf = 0;         // output buffer size (0: unbuffered)
  bool seekable = true;      // output: position queries/seeks supported
  int64_t capacity = -1;     // output: bytes the device accepts in total (-1: unlimited)
  int kind = IO_NONE;        // fault
  int64_t at = -1;           // device operation index at which it fires
  int64_t count = 1;         // how many consecutive device operations fail (huge: until healed)
  unsigned ops_mask = 15;    // which classes can be hit: 1 read 2 seek 4 tell 8 write
};

struct SimIoError : std::runtime_error {
  SimIoError() : std::runtime_error("simulated device error") {}
};

class SimBuf : public std::streambuf {
 public:
  // input over `data`; output appends/overwrites into *out
  SimBuf(const std::string* data, std::string* out, const IoCfg& c);
  void heal() { cfg.kind = IO_NONE; cfg.capacity = -1; }
  void arm(int kind, int64_t at_from_now, int64_t count, unsigned mask) {
    cfg.kind = kind; cfg.at = ops + at_from_now; cfg.count = count; cfg.ops_mask = mask;
  }
  IoCfg cfg;
  int64_t ops = 0;        // device operations so far
  int64_t cls_ops[4] = {0, 0, 0, 0};
  uint64_t fired = 0;     // faults fired
  uint64_t fired_cls[4] = {0, 0, 0, 0};
  int64_t device_written = 0;
  int64_t max_pos() const { return maxp_; }

 protected:
  int_type underflow() override;
  std::streamsize showmanyc() override;
  int_type overflow(int_type c) override;
  std::streamsize xsputn(const char* s, std::streamsize n) override;
  int sync() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override;
  pos_type seekpos(pos_type pos, std::ios_base::openmode which) override;

 private:
  const std::string* in_;
  std::string* out_;
  std::string ibuf_, pend_;
  int64_t base_ = 0;   // file offset of ibuf_ start
  int64_t wpos_ = 0;   // write position (of the device)
  int64_t maxp_ = 0;
  int hit(int cls);    // returns fault kind to apply now (IO_NONE if healthy)
  bool device_write(const char* s, size_t n, size_t& done);
  bool flush_pending();
  int64_t gpos() const { return base_ + (gptr() - eback()); }
};

const char* io_class_name(int cls);

// A file on the simulated disk: `cached` is what readers see while the system is
// up, `durable` is what survives a crash.
struct SimFile {
  std::string cached, durable;
  bool exists = false;
};

}  // namespace sim
