//@ file property=C07 src=wp unwind=10 unwind_cap=20 cdefine=VF_MEM_BYTEWISE
// webm_parser: block headers, lacing and the frames handed to the callback.
#include "wp_reader.h"
#include "src/block_header_parser.h"
#include "src/block_parser.h"
#include "src/virtual_block_parser.h"
using namespace webm;

template <unsigned L>
static void Header(uint8_t first, unsigned c1, unsigned c2) {
  Stream<L + 3> s;
  s.Init();
  s.data[0] = first;
  BlockHeaderParser p;
  Status st = FeedCuts(p, s, L + 3, c1, c2, NoCallback());
  ENSURES(st.completed_ok() && s.pos == L + 3, "exactly the header is consumed");
  ENSURES(p.value().track_number == (Be(s.data, 0, L) & ~(1ull << (7 * L))),
          "track number");
  ENSURES(p.value().timecode == (int16_t)Be(s.data, L, 2),
          "signed 16-bit relative time");
  ENSURES(p.value().flags == s.data[L + 2], "flags");
}
template <unsigned L>
static void Headers(uint8_t first) {
  for (unsigned c2 = 0; c2 <= L + 3; ++c2)
    for (unsigned c1 = 0; c1 <= c2; ++c1) Header<L>(first, c1, c2);
}
//@ proof block_header1 kind=bounded bound="2 interruptions" functions=BlockHeaderParser::Feed
VF_PROOF(block_header1) { Headers<1>(0x85); }
//@ proof block_header2 kind=bounded bound="2 interruptions" unwind=24 functions=BlockHeaderParser::Feed
VF_PROOF(block_header2) { Headers<2>(0x6f); }
//@ proof block_header8 kind=bounded bound="1 interruption" unwind=13 functions=BlockHeaderParser::Feed
VF_PROOF(block_header8) {
  for (unsigned c = 0; c <= 11; ++c) Header<8>(1, c, 11);
}
//@ proof virtual_block kind=bounded bound="2 interruptions, 1-byte track number" functions=VirtualBlockParser::Init,VirtualBlockParser::Feed
VF_PROOF(virtual_block) {
  for (unsigned c2 = 0; c2 <= 4; ++c2)
    for (unsigned c1 = 0; c1 <= c2; ++c1) {
      Stream<4> s;
      s.Init();
      s.data[0] = 0x93;
      uint64_t size = vf_nondet_u64();
      VirtualBlockParser p;
      Status st = p.Init(Meta(size), kUnknownElementSize);
      if (size < 4 || size == kUnknownElementSize) {
        ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
        continue;
      }
      ENSURES(st.completed_ok(), "accepted");
      st = FeedCuts(p, s, 4, c1, c2, NoCallback());
      ENSURES(st.completed_ok(), "parsed");
      ENSURES(p.value().track_number == (s.data[0] & 0x7fu) &&
                  p.value().timecode == (int16_t)Be(s.data, 1, 2),
              "track number and relative time");
    }
}
// ---- blocks ------------------------------------------------------------------
static const int kMaxFrames = 5;
struct Log final : Callback {
  Action action = Action::kRead;
  int begins = 0, ends = 0, frames = 0;
  int stop_at = -1;       // the frame at which OnFrame stops once
  uint64_t stop_left = 0; // bytes left at that point
  SimpleBlock block{};
  uint64_t pos[kMaxFrames], size[kMaxFrames], left[kMaxFrames];
  bool parents = true;
  ElementMetadata parent;
  Status Begin(const ElementMetadata& m, const Block& b, Action* a) {
    ++begins;
    static_cast<Block&>(block) = b;
    if (!(m == parent)) parents = false;
    *a = action;
    return Status(Status::kOkCompleted);
  }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const SimpleBlock& b,
                            Action* a) override {
    block = b;
    return Begin(m, b, a);
  }
  Status OnBlockBegin(const ElementMetadata& m, const Block& b,
                      Action* a) override {
    return Begin(m, b, a);
  }
  Status OnFrame(const FrameMetadata& m, Reader*, uint64_t* left_) override {
    ENSURES(frames < kMaxFrames, "one call per frame");
    if (!(m.parent_element == parent)) parents = false;
    pos[frames] = m.position;
    size[frames] = m.size;
    left[frames] = *left_;
    if (frames == stop_at) {
      stop_at = -1;
      stop_left = *left_ ? *left_ - 1 : 0;
      *left_ = stop_left;
      return Status(Status::kWouldBlock);
    }
    ++frames;
    *left_ = 0;
    return Status(Status::kOkCompleted);
  }
  Status OnSimpleBlockEnd(const ElementMetadata& m,
                          const SimpleBlock&) override {
    ++ends;
    if (!(m == parent)) parents = false;
    return Status(Status::kOkCompleted);
  }
  Status OnBlockEnd(const ElementMetadata& m, const Block&) override {
    ++ends;
    if (!(m == parent)) parents = false;
    return Status(Status::kOkCompleted);
  }
};
static ElementMetadata AnyElement() {
  ElementMetadata m;
  m.id = Id::kSimpleBlock;
  m.header_size = vf_nondet_u32() & 15;
  m.position = vf_nondet_u64() & ((1ull << 56) - 1);
  m.size = vf_nondet_u64() & ((1ull << 56) - 1);
  return m;
}
// One Feed over a block whose header, frame count and lace sizes are in `s`
// (`head` bytes); `len` the encoded frame lengths but the last one's, `ok` if
// they are well formed.
template <class P, unsigned N>
static void RunOn(Stream<N>& s, const ElementMetadata& m, unsigned head, int n,
                  const uint64_t* len, bool ok, int stop_at = -1,
                  unsigned c1 = N, unsigned c2 = N) {
  P p;
  Status st = p.Init(m, kUnknownElementSize);
  if (m.size < 5) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  ENSURES(st.completed_ok(), "accepted");
  Log log;
  log.parent = m;
  log.stop_at = stop_at;
  uint64_t got = 0;
  const unsigned cut[3] = {c1, c2, N};
  // one call per piece the header arrives in, and one after the interrupted
  // frame
  for (unsigned i = 0; i < 3; ++i) {
    uint64_t part = 0xdeadbeef;
    s.limit = cut[i];
    st = p.Feed(&log, &s, &part);
    got += part;
    if (cut[i] >= head) break;
    ENSURES(st.code == Status::kWouldBlock && s.pos == cut[i] && part <= 9,
            "waits for the rest of the header");
  }
  if (stop_at >= 0) {
    ENSURES(st.code == Status::kWouldBlock, "waits for the rest of the frame");
    uint64_t part = 0xdeadbeef;
    st = p.Feed(&log, &s, &part);
    got += part;
  }
  uint64_t sum = head;
  for (int i = 0; i < n - 1; ++i) sum += len[i];
  ok = ok && sum < m.size;
  ENSURES(log.begins == 1 && log.parents, "the block is announced once");
  ENSURES(log.block.track_number == (s.data[0] & 0x7fu) &&
              log.block.timecode == (int16_t)Be(s.data, 1, 2) &&
              log.block.is_visible == !(s.data[3] & 8) &&
              (int)log.block.lacing == (s.data[3] & 6) &&
              log.block.num_frames == n,
          "track number, time, flags, lacing, frame count");
  if (!ok) {
    ENSURES(st.code == Status::kInvalidElementValue && log.frames == 0,
            "malformed lacing is refused before any frame");
    return;
  }
  ENSURES(st.completed_ok() && log.frames == n && log.ends == 1,
          "every frame is delivered, then the end");
  ENSURES(got == m.size, "bytes taken are reported");
  ENSURES(s.pos == head, "only header and lace sizes are read");
  uint64_t at = m.position + m.header_size + head;
  for (int i = 0; i < n; ++i) {
    uint64_t l = i < n - 1 ? len[i] : m.size - sum;
    ENSURES(log.pos[i] == at && log.size[i] == l &&
                log.left[i] == (i == stop_at ? log.stop_left : l),
            "frames lie back to back and end with the block");
    at += l;
  }
  ENSURES(at == m.position + m.header_size + m.size, "ends with the block");
  vf_cover(true, "accepted");
}
template <class P, unsigned N>
static void Run(Stream<N>& s, unsigned head, int n, const uint64_t* len,
                bool ok) {
  RunOn<P>(s, AnyElement(), head, n, len, ok);
}
template <unsigned N>
static void Head(Stream<N>& s, uint8_t flags, int n) {
  s.Init();
  s.stop_code = Status::kWouldBlock;
  s.data[0] = 0x97;
  s.data[3] = flags;
  if (N > 4) s.data[4] = (uint8_t)(n - 1);
}
// a one-byte track number is fixed (the header proofs cover it); the flags are
// fixed per run
//@ proof wblock_none functions=BasicBlockParser::Init,BasicBlockParser::Feed
VF_PROOF(wblock_none) {
  for (unsigned f = 0; f < 4; ++f) {
    Stream<4> s;
    Head(s, (uint8_t)(f & 1 ? 0x80 : 0x08) | (f & 2 ? 0x71 : 0), 1);
    Run<SimpleBlockParser>(s, 4, 1, nullptr, true);
  }
}
//@ proof wblock_none_block functions=BasicBlockParser::Init,BasicBlockParser::Feed
VF_PROOF(wblock_none_block) {
  for (unsigned f = 0; f < 4; ++f) {
    Stream<4> s;
    Head(s, (uint8_t)(f & 1 ? 0x80 : 0x08) | (f & 2 ? 0x71 : 0), 1);
    Run<BlockParser>(s, 4, 1, nullptr, true);
  }
}
//@ proof wblock_lace1 functions=BasicBlockParser::Feed
VF_PROOF(wblock_lace1) {
  for (uint8_t lacing = 2; lacing <= 6; lacing += 2) {
    Stream<5> s;
    Head(s, 0x81 | lacing, 1);
    Run<SimpleBlockParser>(s, 5, 1, nullptr, true);
  }
}
//@ proof wblock_xiph kind=bounded bound="3 frames of 272 and 250 bytes and the rest" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_xiph) {
  Stream<8> s;
  Head(s, 0x02, 3);
  s.data[5] = 255;
  s.data[6] = 17;
  s.data[7] = 250;
  uint64_t len[2] = {255 + 17, 250};
  Run<SimpleBlockParser>(s, 8, 3, len, true);
}
//@ proof wblock_xiph2 kind=bounded bound="2 frames, the first below 255, 255 to 509 or 510 to 764 bytes" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_xiph2) {
  for (unsigned k = 0; k < 3; ++k) {
    Stream<8> s;
    Head(s, 0x02, 2);
    for (unsigned i = 0; i < k; ++i) s.data[5 + i] = 255;
    s.data[5 + k] = 93;
    uint64_t len[1] = {255 * k + 93};
    Run<SimpleBlockParser>(s, 6 + k, 2, len, true);
  }
}
template <unsigned L0, unsigned L1>
static void EbmlLace(uint8_t b0, uint8_t b1) {
  Stream<5 + L0 + L1> s;
  Head(s, 0x8e, 3);
  s.data[5] = b0;
  s.data[5 + L0] = b1;
  uint64_t len[2];
  len[0] = Be(s.data, 5, L0) & ~(1ull << (7 * L0));
  int64_t l1 = (int64_t)len[0] +
               (int64_t)(Be(s.data, 5 + L0, L1) & ~(1ull << (7 * L1))) -
               (int64_t)((1ull << (7 * L1 - 1)) - 1);
  len[1] = (uint64_t)l1;
  Run<SimpleBlockParser>(s, 5 + L0 + L1, 3, len, l1 >= 0);
}
//@ proof wblock_ebml32 kind=bounded bound="3 frames, sizes of 3 and 2 bytes" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml32) { EbmlLace<3, 2>(0x20, 0x40); }
//@ proof wblock_ebml22 kind=bounded bound="3 frames, 2-byte sizes" functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml22) { EbmlLace<2, 2>(0x40, 0x5f); }
//@ proof wblock_ebml13 kind=bounded bound="3 frames, sizes of 1 and 3 bytes" functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml13) { EbmlLace<1, 3>(0xe4, 0x2f); }
//@ proof wblock_ebml15 kind=bounded bound="3 frames, sizes of 1 and 5 bytes" unwind=24 solver=cadical functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml15) { EbmlLace<1, 5>(0xe4, 0x0f); }
//@ proof wblock_ebml18 kind=bounded bound="3 frames, sizes of 1 and 8 bytes" unwind=24 solver=cadical functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml18) { EbmlLace<1, 8>(0xe4, 0x01); }
//@ proof wblock_ebml56 kind=bounded bound="3 frames, sizes of 5 and 6 bytes" unwind=24 solver=cadical functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml56) { EbmlLace<5, 6>(0x08, 0x05); }
//@ proof wblock_ebml74 kind=bounded bound="3 frames, sizes of 7 and 4 bytes" unwind=24 solver=cadical functions=BasicBlockParser::Feed
VF_PROOF(wblock_ebml74) { EbmlLace<7, 4>(0x02, 0x1a); }
static void FixedLace(int n, unsigned bits) {
  Stream<5> s;
  Head(s, 0x04, n);
  ElementMetadata m = AnyElement();
  m.size &= (1ull << bits) - 1;
  uint64_t len[kMaxFrames];
  for (int i = 0; i < kMaxFrames; ++i) len[i] = (m.size - 5) / (unsigned)n;
  RunOn<SimpleBlockParser>(s, m, 5, n, len,
                           m.size > 5 && (m.size - 5) % (unsigned)n == 0);
}
//@ proof wblock_fixed kind=bounded bound="2 and 4 frames" functions=BasicBlockParser::Feed
VF_PROOF(wblock_fixed) {
  FixedLace(2, 56);
  FixedLace(4, 56);
}
//@ proof wblock_fixed3 kind=bounded bound="3 frames, block below 64 KiB" solver=cadical functions=BasicBlockParser::Feed
VF_PROOF(wblock_fixed3) { FixedLace(3, 16); }

// ---- interrupted and skipped blocks ------------------------------------------
static ElementMetadata Sized(uint64_t size) {
  ElementMetadata m = AnyElement();
  m.size = size;
  return m;
}
//@ proof wblock_cut_none kind=bounded bound="2 interruptions of the header, 1 of the frame" functions=BasicBlockParser::Feed
VF_PROOF(wblock_cut_none) {
  for (unsigned c2 = 0; c2 <= 4; ++c2)
    for (unsigned c1 = 0; c1 <= c2; ++c1) {
      Stream<4> s;
      Head(s, 0x81, 1);
      RunOn<SimpleBlockParser>(s, Sized(1000), 4, 1, nullptr, true, 0, c1, c2);
    }
}
//@ proof wblock_cut_xiph kind=bounded bound="2 frames, 1 interruption inside the lace sizes" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_cut_xiph) {
  Stream<7> s;
  Head(s, 0x02, 2);
  s.data[5] = 255;
  s.data[6] = 31;
  uint64_t len[1] = {255 + 31};
  RunOn<SimpleBlockParser>(s, Sized(600), 7, 2, len, true, -1, 6);
}
//@ proof wblock_cut_ebml kind=bounded bound="3 frames, 1 interruption inside the lace sizes" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_cut_ebml) {
  Stream<8> s;
  Head(s, 0x06, 3);
  s.data[5] = 0x44;
  s.data[6] = 0x18;
  s.data[7] = 0xb3;
  uint64_t len[2] = {0x418, 0x418 + 0x33 - 63};
  RunOn<SimpleBlockParser>(s, Sized(3000), 8, 3, len, true, -1, 6);
}
//@ proof wblock_cut_ebml2 kind=bounded bound="3 frames, 1 interruption between the lace sizes" unwind=14 functions=BasicBlockParser::Feed
VF_PROOF(wblock_cut_ebml2) {
  Stream<8> s;
  Head(s, 0x06, 3);
  s.data[5] = 0x44;
  s.data[6] = 0x18;
  s.data[7] = 0xb3;
  uint64_t len[2] = {0x418, 0x418 + 0x33 - 63};
  RunOn<SimpleBlockParser>(s, Sized(3000), 8, 3, len, true, -1, 7);
}
//@ proof wblock_cut_fixed kind=bounded bound="2 frames, 1 interruption of the header, 1 of a frame" functions=BasicBlockParser::Feed
VF_PROOF(wblock_cut_fixed) {
  for (unsigned c = 4; c <= 5; ++c) {
    Stream<5> s;
    Head(s, 0x04, 2);
    uint64_t len[1] = {700};
    RunOn<SimpleBlockParser>(s, Sized(1405), 5, 2, len, true, (int)(c & 1), c);
  }
}
template <class P>
static void SkipBlock(uint8_t flags, unsigned head, bool pieces) {
  Stream<5> s;
  Head(s, flags, 9);
  s.far_skip = true;
  if (pieces) {
    s.skip_script[0] = Status::kOkPartial;
    s.skip_script[1] = Status::kWouldBlock;
    s.skip_script[2] = Status::kOkPartial;
  }
  ElementMetadata m = AnyElement();
  P p;
  Status st = p.Init(m, kUnknownElementSize);
  if (m.size < 5) return;
  Log log;
  log.action = Action::kSkip;
  log.parent = m;
  uint64_t got = 0xdeadbeef, again = 0;
  st = p.Feed(&log, &s, &got);
  if (pieces && m.size > head) {
    ENSURES(st.code == Status::kWouldBlock && !(got > m.size), "interrupted");
    st = p.Feed(&log, &s, &again);
    got += again;
  }
  ENSURES(log.begins == 1 && log.frames == 0 && log.ends == 0,
          "a skipped block is announced and delivers nothing");
  ENSURES(st.completed_ok() && got == m.size && s.skipped == m.size - head &&
              p.WasSkipped(),
          "exactly the rest of the block is skipped");
}
//@ proof wblock_skip functions=BasicBlockParser::Feed,BasicBlockParser::WasSkipped
VF_PROOF(wblock_skip) {
  SkipBlock<SimpleBlockParser>(0x81, 4, false);
  SkipBlock<BlockParser>(0x86, 5, false);
}
//@ proof wblock_skip_cut kind=bounded bound="delivered in 3 pieces, 1 interruption" functions=BasicBlockParser::Feed,BasicBlockParser::WasSkipped
VF_PROOF(wblock_skip_cut) {
  SkipBlock<SimpleBlockParser>(0x81, 4, true);
  SkipBlock<BlockParser>(0x86, 5, true);
}
