// Ghost file for mkvparser: a window of arbitrary bytes at an arbitrary
// position; everything outside it is unreadable (any error code, negative or
// positive).  `available` bytes of a `total` (or unknown) length are announced.
#ifndef GHOST_READER_H_
#define GHOST_READER_H_
#include "ebml_spec.h"
#include "mkvparser/mkvparser.h"
template <unsigned N>
struct GR final : mkvparser::IMkvReader {
  uint8_t data[N];
  long long base = 0;
  unsigned n = 0;  // readable bytes
  int err = -1;
  long long total = -1, avail = 0;
  int len_status = 0;
  // every byte of the window readable, at a fixed position
  void InitFixed(long long at) {
    for (unsigned i = 0; i < N; ++i) data[i] = vf_nondet_u8();
    base = at;
    n = N;
    avail = base + n;
  }
  void Init() {
    for (unsigned i = 0; i < N; ++i) data[i] = vf_nondet_u8();
    base = vf_nondet_i64();
    vf_assume(base >= 0 && base <= INT64_MAX - 2 * (long long)N);
    n = (unsigned)vf_range(0, N);
    err = vf_nondet_i32();
    vf_assume(err != 0);
    avail = base + n;
    if (vf_nondet_bool()) {
      total = vf_nondet_i64();
      vf_assume(total >= avail);
    }
  }
  int Read(long long pos, long len, unsigned char* buf) override {
    ENSURES(len >= 0 && vf_w_ok(buf, (uint64_t)len),
            "the buffer passed to Read holds the bytes asked for");
    if (pos < base || len < 0 || pos - base > (long long)n ||
        len > (long long)n - (pos - base))
      return err;
    if (len == 1)
      buf[0] = data[pos - base];
    else
      for (long i = 0; i < (long)N; ++i)
        if (i < len) buf[i] = data[pos - base + i];
    return 0;
  }
  int Length(long long* t, long long* a) override {
    if (len_status) return len_status;
    if (t) *t = total;
    if (a) *a = avail;
    return 0;
  }
};
#endif
