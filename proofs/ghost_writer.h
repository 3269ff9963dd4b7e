// Byte-level ghost writer: an IMkvWriter that keeps a stream position and one
// byte of the stream, at a position chosen arbitrarily beforehand.  A claim
// about that byte is a claim about every byte of the stream.  It fails, once,
// at an arbitrarily chosen position.
#ifndef GHOST_WRITER_H_
#define GHOST_WRITER_H_
#include "ebml_spec.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
struct GW final : mkvmuxer::IMkvWriter {
  uint64_t base = 0;            // stream position of the first byte
  uint64_t n = 0;               // bytes written so far (position - base)
  uint64_t watch = 0;           // relative position of the observed byte
  uint8_t byte = 0;             // value last written there
  unsigned hits = 0;            // how often that byte was written
  uint64_t fail_at = ~0ull;     // the write covering this offset fails
  int32_t fail_code = -1;
  bool failed = false;
  bool seekable = true;
  uint64_t high = 0;            // end of the stream
  uint64_t note_id = 0;
  int64_t note_pos = -1;
  unsigned notes = 0;
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 len) override {
    // the position advances even when a write fails (some bytes may have
    // reached the device): only the return value tells
    if (n <= fail_at && n + len > fail_at) {
      failed = true;
      n += len;
      return fail_code;
    }
    if (watch >= n && watch - n < len) {
      byte = ((const uint8_t*)b)[watch - n];
      if (hits < 1000) ++hits;
    }
    n += len;
    if (n > high) high = n;
    return 0;
  }
  mkvmuxer::int64 Position() const override { return (int64_t)(base + n); }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override {
    if (!seekable || p < 0) return -1;
    n = (uint64_t)p - base;
    return 0;
  }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) override {
    note_id = id;
    note_pos = p;
    ++notes;
  }
  // arbitrary start position, observed byte and failure point
  void Init() {
    base = vf_range(0, 1ull << 62);
    watch = vf_nondet_u64();
    fail_at = vf_nondet_u64();
    fail_code = vf_nondet_i32();
    vf_assume(fail_code != 0);
  }
};
#endif
