// Ghost stream for webm_parser: N arbitrary bytes delivered in arbitrary
// pieces.  Each call of the parser may find the stream stopped anywhere, with
// any status that stands for "nothing read"; a longer read is then short
// (kOkPartial).
#ifndef WP_READER_H_
#define WP_READER_H_
#include "ebml_spec.h"
#include "webm/callback.h"
#include "webm/reader.h"
template <unsigned N>
struct Stream final : webm::Reader {
  uint8_t data[N];
  unsigned pos = 0, limit = N;  // nothing is delivered from `limit` on
  int32_t stop_code = webm::Status::kWouldBlock;
  uint64_t base = 0;
  // Set: Skip moves over data that is not in `data`; `skip_script` holds the
  // status of each call.
  bool far_skip = false;
  uint64_t skipped = 0;
  unsigned skips = 0;
  int32_t skip_script[4] = {0, 0, 0, 0};
  void Init() {
    for (unsigned i = 0; i < N; ++i) data[i] = vf_nondet_u8();
    stop_code = vf_nondet_i32();
    REQUIRES(stop_code != webm::Status::kOkCompleted &&
             stop_code != webm::Status::kOkPartial);
  }
  webm::Status Read(std::size_t k, std::uint8_t* buf,
                    std::uint64_t* done) override {
    ENSURES(k > 0 && buf != nullptr && done != nullptr && vf_w_ok(buf, k),
            "Read is called within its contract");
    *done = 0;
    for (std::size_t i = 0; i < k; ++i) {
      if (pos >= limit) {
        *done = i;
        return webm::Status(i ? (int32_t)webm::Status::kOkPartial : stop_code);
      }
      buf[i] = data[pos++];
    }
    *done = k;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status Skip(std::uint64_t k, std::uint64_t* done) override {
    ENSURES(k > 0 && done != nullptr, "Skip is called within its contract");
    *done = 0;
    if (far_skip) {
      ENSURES(skips < 4, "no Skip after the last byte");
      int32_t code = skip_script[skips++];
      if (code == webm::Status::kOkPartial) {
        REQUIRES(k > 1);
        *done = vf_nondet_u64();
        REQUIRES(*done > 0 && *done < k);
      } else if (code == webm::Status::kOkCompleted) {
        *done = k;
      }
      skipped += *done;
      return webm::Status(code);
    }
    for (uint64_t i = 0; i < k; ++i) {
      if (pos >= limit) {
        *done = i;
        return webm::Status(i ? (int32_t)webm::Status::kOkPartial : stop_code);
      }
      ++pos;
    }
    *done = k;
    return webm::Status(webm::Status::kOkCompleted);
  }
  std::uint64_t Position() const override { return base + pos; }
};
alignas(16) static char vf_callback[sizeof(webm::Callback)];
static webm::Callback* NoCallback() { return (webm::Callback*)vf_callback; }
static unsigned MarkerLen(uint8_t b) {  // 1..8, 9 if no marker
  unsigned l = 9;
  for (unsigned k = 8; k >= 1; --k)
    if (b & (0x80 >> (k - 1))) l = k;
  return l;
}
template <unsigned N>
static uint64_t Be(const uint8_t (&d)[N], unsigned off, unsigned len) {
  uint64_t v = 0;
  for (unsigned i = 0; i < N; ++i)
    if (i >= off && i < off + len) v = v << 8 | d[i];
  return v;
}
// Feeds p, stopping the stream at byte `c1`, then at `c2`, then not at all.
template <class P, unsigned N>
static webm::Status FeedCuts(P& p, Stream<N>& s, unsigned end, unsigned c1,
                             unsigned c2, webm::Callback* cb) {
  s.pos = 0;
  s.stop_code = webm::Status::kWouldBlock;
  webm::Status st(webm::Status::kOkCompleted);
  unsigned cut[3] = {c1, c2, N};
  for (unsigned i = 0; i < 3; ++i) {
    uint64_t got = 0xdeadbeef;
    unsigned before = s.pos;
    s.limit = cut[i];
    st = p.Feed(cb, &s, &got);
    ENSURES(got == s.pos - before, "bytes taken are reported");
    if (s.pos >= end) return st;
    ENSURES(st.code == webm::Status::kWouldBlock && s.pos == cut[i],
            "stops where the stream stops");
  }
  return st;
}
// Feeds until the parser completes or refuses; each call reports the reader's
// status and the number of bytes it took.
template <class P, unsigned N>
static webm::Status FeedAll(P& p, Stream<N>& s, unsigned stops) {
  webm::Status st(webm::Status::kOkCompleted);
  for (unsigned i = 0; i <= stops; ++i) {
    uint64_t got = 0xdeadbeef;
    unsigned before = s.pos;
    s.limit = i < stops ? (unsigned)vf_range(0, N) : N;
    st = p.Feed(NoCallback(), &s, &got);
    ENSURES(got == s.pos - before, "bytes taken are reported");
    ENSURES(st.code != webm::Status::kOkPartial, "never partial");
    if (st.code != s.stop_code) return st;
  }
  return st;
}
static webm::ElementMetadata Meta(uint64_t size) {
  webm::ElementMetadata m;
  m.id = webm::Id::kVoid;
  m.header_size = 2;
  m.size = size;
  m.position = 0;
  return m;
}
#endif
