#include "simio.h"
#include <algorithm>

namespace sim {

const char* io_class_name(int c) { static const char* n[] = {"read", "seek", "tell", "write"}; return n[c]; }
static const char* kind_name(int k) { static const char* n[] = {"none", "fail", "throw", "partial", "full"}; return n[k]; }

SimBuf::SimBuf(const std::string* data, std::string* out, const IoCfg& c) : cfg(c), in_(data), out_(out) {
  Seam s;
  ibuf_.reserve(64);
  setg(nullptr, nullptr, nullptr);
}

int SimBuf::hit(int cls) {
  int64_t k = ops++;
  ++cls_ops[cls];
  ++g_stats.io_ops;
  if (cfg.kind != IO_NONE && cfg.kind != IO_FULL && (cfg.ops_mask & (1u << cls)) && cfg.at >= 0 && k >= cfg.at && cfg.count > 0) {
    --cfg.count;
    ++fired;
    ++fired_cls[cls];
    fault_fired(std::string("io-") + io_class_name(cls) + "-" + kind_name(cfg.kind));
    EV("fault io %s %s op=%lld", io_class_name(cls), kind_name(cfg.kind), (long long)k);
    return cfg.kind;
  }
  return IO_NONE;
}

SimBuf::int_type SimBuf::underflow() {
  yield_point(1);
  Seam seam;
  if (!in_) return traits_type::eof();
  if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
  int64_t pos = gpos();
  int f = hit(0);
  if (f == IO_THROW) throw SimIoError();
  if (f == IO_FAIL) return traits_type::eof();
  int64_t n = (int64_t)in_->size() - pos;
  if (n <= 0) return traits_type::eof();
  if (cfg.chunk && n > (int64_t)cfg.chunk) n = cfg.chunk;
  if (f == IO_PARTIAL) { n = (n + 1) / 2; cfg.kind = IO_FAIL; cfg.count++; cfg.at = ops; }
  ibuf_.assign(*in_, (size_t)pos, (size_t)n);
  base_ = pos;
  setg(&ibuf_[0], &ibuf_[0], &ibuf_[0] + ibuf_.size());
  if (pos + n > maxp_) maxp_ = pos + n;
  return traits_type::to_int_type(*gptr());
}

std::streamsize SimBuf::showmanyc() { return 0; }

bool SimBuf::device_write(const char* s, size_t n, size_t& done) {
  done = 0;
  if (!out_) return false;
  int f = hit(3);
  if (f == IO_THROW) throw SimIoError();
  if (f == IO_FAIL) return false;
  size_t take = n;
  if (f == IO_PARTIAL) take = n / 2;
  bool full = false;
  if (cfg.capacity >= 0 && device_written + (int64_t)take > cfg.capacity) {
    take = (size_t)std::max<int64_t>(0, cfg.capacity - device_written);
    full = true;
    ++fired;
    ++fired_cls[3];
    fault_fired("io-write-full");
    EV("fault disk full at %lld", (long long)device_written);
  }
  if (wpos_ > (int64_t)out_->size()) out_->resize((size_t)wpos_, '\0');
  if (wpos_ + (int64_t)take > (int64_t)out_->size()) out_->resize((size_t)(wpos_ + take));
  memcpy(&(*out_)[0] + wpos_, s, take);
  wpos_ += take;
  device_written += take;
  done = take;
  return !full && take == n;
}

bool SimBuf::flush_pending() {
  if (pend_.empty()) return true;
  std::string p;
  p.swap(pend_);
  size_t done = 0;
  bool ok = device_write(p.data(), p.size(), done);
  return ok;  // like a real buffered writer, a failed flush drops the rest
}

SimBuf::int_type SimBuf::overflow(int_type c) {
  yield_point(1);
  Seam seam;
  if (traits_type::eq_int_type(c, traits_type::eof())) return flush_pending() ? 0 : traits_type::eof();
  char ch = traits_type::to_char_type(c);
  if (cfg.obuf) {
    pend_.push_back(ch);
    if (pend_.size() >= cfg.obuf && !flush_pending()) return traits_type::eof();
    return c;
  }
  size_t done = 0;
  return device_write(&ch, 1, done) ? c : traits_type::eof();
}

std::streamsize SimBuf::xsputn(const char* s, std::streamsize n) {
  yield_point(1);
  Seam seam;
  if (n <= 0) return 0;
  if (cfg.obuf) {
    pend_.append(s, (size_t)n);
    if (pend_.size() >= cfg.obuf && !flush_pending()) return 0;
    return n;
  }
  size_t done = 0;
  device_write(s, (size_t)n, done);
  return (std::streamsize)done;
}

int SimBuf::sync() {
  Seam seam;
  return flush_pending() ? 0 : -1;
}

SimBuf::pos_type SimBuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) {
  yield_point(1);
  Seam seam;
  bool tell = off == 0 && dir == std::ios_base::cur;
  int f = hit(tell ? 2 : 1);
  if (f == IO_THROW) throw SimIoError();
  if (f != IO_NONE) return pos_type(off_type(-1));
  if (in_) {
    int64_t cur = gpos();
    if (tell) return pos_type(cur);
    int64_t b = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? cur : (int64_t)in_->size();
    int64_t t = b + off;
    if (t < 0) return pos_type(off_type(-1));
    base_ = t;
    setg(nullptr, nullptr, nullptr);
    return pos_type(t);
  }
  if (!cfg.seekable) return pos_type(off_type(-1));
  if (tell) return pos_type(off_type(wpos_ + (int64_t)pend_.size()));
  if (!flush_pending()) return pos_type(off_type(-1));
  int64_t b = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? wpos_ : (int64_t)out_->size();
  int64_t t = b + off;
  if (t < 0) return pos_type(off_type(-1));
  wpos_ = t;
  return pos_type(t);
}

SimBuf::pos_type SimBuf::seekpos(pos_type pos, std::ios_base::openmode which) {
  return seekoff(off_type(pos), std::ios_base::beg, which);
}

}  // namespace sim
