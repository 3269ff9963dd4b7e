//@ file property=C05 src=mkv unwind=10 unwind_cap=20 contracts=dec solver=cadical
// mkvparser::Block: header and lacing, over the contracts of the decoding
// primitives (proved in parse_ebml.cc).
#include "ghost_reader.h"
#include "slot.h"
#include <climits>
#ifdef VF_NATIVE
#include <vector>
#endif
using namespace mkvparser;

// The file is a script of tokens: variable-size integers of any length and
// value, one 16-bit integer and single bytes, each at the position where the
// previous one ends; token number `fail` cannot be read.
static const long long kBase = 1000;
static const unsigned kNever = 1000;
struct Script {
  long long pos = kBase;
  unsigned uints = 0, bytes = 0, token = 0, fail = kNever;
  int err = -1;
  long long val[8];  // value and length of the k-th variable-size integer
  long len[8];
  long long time = 0;
  uint8_t byte[12];
};
static Script* S;
static bool Next(long long pos, long long len) {
  ENSURES(pos == S->pos, "reads at the position the format defines");
  if (S->token++ == S->fail) return false;
  S->pos = pos + len;
  return true;
}
static long long ReadUIntC(IMkvReader*, long long pos, long& len) {
  unsigned k = S->uints++;
  if (!Next(pos, S->len[k])) return -1;
  len = S->len[k];
  return S->val[k];
}
static long UnserializeIntC(IMkvReader*, long long pos, long long size,
                            long long& v) {
  ENSURES(size == 2, "relative time is 16 bits");
  if (!Next(pos, 2)) return -1;
  v = S->time;
  return 0;
}
VF_CONTRACT(dec, ruint, &ReadUInt, &ReadUIntC)
VF_CONTRACT(dec, rint, &UnserializeInt, &UnserializeIntC)
struct File final : IMkvReader {
#ifdef VF_NATIVE
  std::vector<uint8_t> image;
  void Uint(unsigned k) {
    if (S->token++ >= S->fail) return;
    for (long i = S->len[k] - 1; i >= 0; --i)
      image.push_back(
          (uint8_t)(((uint64_t)S->val[k] | 1ull << (7 * S->len[k])) >> (8 * i)));
  }
  void Byte(uint8_t b) {
    if (S->token++ < S->fail) image.push_back(b);
  }
  void Time() {
    Byte((uint8_t)(S->time >> 8));
    --S->token;
    Byte((uint8_t)S->time);
  }
  void Done() { S->token = 0; }
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < kBase || len < 0 || pos - kBase + len > (long long)image.size())
      return S->err;
    memcpy(buf, image.data() + (pos - kBase), len);
    return 0;
  }
#else
  void Uint(unsigned) {}
  void Byte(uint8_t) {}
  void Time() {}
  void Done() {}
  int Read(long long pos, long len, unsigned char* buf) override {
    ENSURES(len == 1, "one byte at a time");
    if (!Next(pos, 1)) return S->err;
    *buf = S->byte[S->bytes++];
    return 0;
  }
#endif
  int Length(long long*, long long*) override { return -1; }
};
static Script g_script;
static Slot<Segment> g_seg;
static Slot<Cluster> g_cluster;
static Slot<Block> g_block;
static const Cluster* ClusterOn(IMkvReader* r) {
  *const_cast<IMkvReader**>(&g_seg.v.m_pReader) = r;
  *const_cast<Segment**>(&g_cluster.v.m_pSegment) = &g_seg.v;
  return &g_cluster.v;
}
// one variable-size integer of any length and value
static void AnyUint(unsigned k) {
  S->len[k] = (long)vf_range(1, 8);
  S->val[k] = (long long)(vf_nondet_u64() & ((1ull << 56) - 1));
  REQUIRES(S->val[k] >> (7 * S->len[k]) == 0);
}
static long long head;  // bytes before the frames or lace sizes
static void Prepare(File& f, uint8_t flags) {
  S = &g_script;
  AnyUint(0);
  f.Uint(0);
  S->time = (int16_t)vf_nondet_u16();
  f.Time();
  S->byte[0] = flags;
  f.Byte(flags);
  head = S->len[0] + 3;
}
static void HeaderIs(const Block& b, uint8_t flags) {
  ENSURES(b.GetTrackNumber() == S->val[0], "track number");
  ENSURES(b.GetTimeCode(nullptr) == S->time, "signed 16-bit relative time");
  ENSURES(b.IsKey() == ((flags & 0x80) != 0), "key-frame flag");
  ENSURES(b.IsInvisible() == ((flags & 0x08) != 0), "invisible flag");
  ENSURES((int)b.GetLacing() == (flags >> 1 & 3), "lacing");
}
static const int kMaxFrames = 8;
static void FramesAre(const Block& b, int n, const long long* len,
                      long long stop) {
  ENSURES(b.GetFrameCount() == n, "frame count");
  long long pos = stop;
  for (int i = kMaxFrames - 1; i >= 0; --i)
    if (i < n) {
      pos -= len[i];
      const Block::Frame& f = b.GetFrame(i);
      ENSURES(f.len == len[i], "frame length");
      ENSURES(f.pos == pos, "frames lie back to back and end with the block");
    }
}
static long long AnySize() {
  long long s = vf_nondet_i64();
  REQUIRES(s >= 0 && s <= INT64_MAX - (1ll << 57));
  return s;
}
//@ proof block_no_lacing functions=Block::Parse,Block::GetFrame
VF_PROOF(block_no_lacing) {
  File f;
  uint8_t flags = vf_nondet_u8() & ~6;
  Prepare(f, flags);
  f.Done();
  long long size = AnySize();
  Block& b = *new (&g_block.v) Block(kBase, size, vf_nondet_i64());
  long st = b.Parse(ClusterOn(&f));
  bool ok = S->val[0] > 0 && head < size;
  if (!ok) ENSURES(st < 0, "a malformed block is refused");
  if (st) {
    ENSURES(st < 0 && (!ok || st == -1), "errors are negative");
    return;
  }
  HeaderIs(b, flags);
  long long l = size - head;
  FramesAre(b, 1, &l, kBase + size);
  vf_cover(S->len[0] == 8, "8-byte track number");
}
static void Xiph(int n, int nb) {  // nb: lace size bytes available
  File f;
  uint8_t flags = (uint8_t)((vf_nondet_u8() & ~6) | 2);
  Prepare(f, flags);
  S->byte[1] = (uint8_t)(n - 1);
  f.Byte(S->byte[1]);
  ++head;
  for (int i = 0; i < nb; ++i) {
    S->byte[2 + i] = vf_nondet_u8();
    f.Byte(S->byte[2 + i]);
  }
  S->fail = 4 + nb;
  f.Done();
  long long size = AnySize();
  Block& b = *new (&g_block.v) Block(kBase, size, 0);
  long st = b.Parse(ClusterOn(&f));
  bool ok = S->val[0] > 0 && size > head;
  long long len[kMaxFrames] = {0, 0, 0, 0, 0, 0, 0, 0}, sum = 0;
  int k = 0, p = 0;
  for (int i = 0; i < nb; ++i)
    if (k < n - 1) {
      uint8_t v = S->byte[2 + i];
      len[k] += v;
      if (v < 255) {
        if (len[k] == 0) ok = false;
        sum += len[k];
        ++k;
      }
      p = i + 1;
    }
  ok = ok && k == n - 1 && size - head - p > sum;
  if (!ok) ENSURES(st < 0, "malformed lacing is refused");
  if (st) {
    ENSURES(st < 0 && (!ok || st == -1), "well-formed lacing is accepted");
    return;
  }
  len[n - 1] = size - head - p - sum;
  HeaderIs(b, flags);
  FramesAre(b, n, len, kBase + size);
  vf_cover(true, "accepted");
}
//@ proof block_xiph1 kind=bounded bound="1 frame" functions=Block::Parse
VF_PROOF(block_xiph1) { Xiph(1, 0); }
//@ proof block_xiph2 kind=bounded bound="2 frames, 6 lace size bytes" functions=Block::Parse
VF_PROOF(block_xiph2) { Xiph(2, 6); }
//@ proof block_xiph3 kind=bounded bound="3 frames, 6 lace size bytes" functions=Block::Parse
VF_PROOF(block_xiph3) { Xiph(3, 6); }
//@ proof block_xiph5 kind=bounded bound="5 frames, 6 lace size bytes" functions=Block::Parse
VF_PROOF(block_xiph5) { Xiph(5, 6); }
static void Fixed(int n, int bits) {
  File f;
  uint8_t flags = (uint8_t)((vf_nondet_u8() & ~6) | 4);
  Prepare(f, flags);
  S->byte[1] = (uint8_t)(n - 1);
  f.Byte(S->byte[1]);
  ++head;
  f.Done();
  long long size = vf_nondet_i64() & ((1ll << bits) - 1);
  Block& b = *new (&g_block.v) Block(kBase, size, 0);
  long st = b.Parse(ClusterOn(&f));
  bool ok = S->val[0] > 0 && size > head && (size - head) % n == 0;
  if (!ok) ENSURES(st < 0, "malformed lacing is refused");
  if (st) {
    ENSURES(st < 0 && (!ok || st == -1), "well-formed lacing is accepted");
    return;
  }
  long long len[kMaxFrames];
  for (int i = 0; i < kMaxFrames; ++i) len[i] = (size - head) / n;
  HeaderIs(b, flags);
  FramesAre(b, n, len, kBase + size);
  vf_cover(true, "accepted");
}
//@ proof block_fixed1 kind=bounded bound="1 frame" functions=Block::Parse
VF_PROOF(block_fixed1) { Fixed(1, 62); }
//@ proof block_fixed2 kind=bounded bound="2 frames" functions=Block::Parse
VF_PROOF(block_fixed2) { Fixed(2, 62); }
//@ proof block_fixed3 kind=bounded bound="3 frames, block below 1 MiB" functions=Block::Parse
VF_PROOF(block_fixed3) { Fixed(3, 20); }
//@ proof block_fixed7 kind=bounded bound="7 frames, block below 64 KiB" functions=Block::Parse
VF_PROOF(block_fixed7) { Fixed(7, 16); }
static void Ebml(int n) {
  File f;
  uint8_t flags = (uint8_t)((vf_nondet_u8() & ~6) | 6);
  Prepare(f, flags);
  S->byte[1] = (uint8_t)(n - 1);
  f.Byte(S->byte[1]);
  ++head;
  int m = n > 1 ? n - 1 : 1;  // lace sizes
  for (int i = 0; i < m; ++i) {
    AnyUint(1 + i);
    f.Uint(1 + i);
  }
  f.Done();
  long long size = AnySize();
  Block& b = *new (&g_block.v) Block(kBase, size, 0);
  long st = b.Parse(ClusterOn(&f));
  bool ok = S->val[0] > 0 && size > head;
  long long len[kMaxFrames] = {0, 0, 0, 0, 0, 0, 0, 0}, sum = 0, cur = 0;
  long long p = head;
  for (int k = 0; k < m; ++k) {
    cur += S->val[1 + k];
    if (k > 0) cur -= (1ll << (7 * S->len[1 + k] - 1)) - 1;
    p += S->len[1 + k];
    if (cur <= 0) ok = false;
    len[k] = cur;
    sum += cur;
  }
  ok = ok && (n == 1 ? size - p == sum : size - p > sum);
  if (!ok) ENSURES(st < 0, "malformed lacing is refused");
  if (st) {
    ENSURES(st < 0 && (!ok || st == -1), "well-formed lacing is accepted");
    return;
  }
  if (n > 1) len[n - 1] = size - p - sum;
  HeaderIs(b, flags);
  FramesAre(b, n, len, kBase + size);
  vf_cover(true, "accepted");
}
//@ proof block_ebml1 kind=bounded bound="1 frame" functions=Block::Parse
VF_PROOF(block_ebml1) { Ebml(1); }
//@ proof block_ebml2 kind=bounded bound="2 frames" functions=Block::Parse
VF_PROOF(block_ebml2) { Ebml(2); }
//@ proof block_ebml3 kind=bounded bound="3 frames" functions=Block::Parse
VF_PROOF(block_ebml3) { Ebml(3); }
//@ proof block_ebml4 kind=bounded bound="4 frames" tier=thorough functions=Block::Parse
VF_PROOF(block_ebml4) { Ebml(4); }
// ---- a byte that cannot be read ----------------------------------------------
static void Unreadable(unsigned lacing, unsigned fail) {
  g_script = Script();
  File f;
  Prepare(f, (uint8_t)(lacing << 1));
  S->fail = fail;
  S->err = fail & 1 ? -1 : 1;
  S->byte[1] = 1;
  f.Byte(1);
  S->byte[2] = vf_nondet_u8();
  if (lacing == 1) f.Byte(S->byte[2]);
  AnyUint(1);
  if (lacing == 3) f.Uint(1);
  f.Done();
  Block& b = *new (&g_block.v) Block(kBase, AnySize(), 0);
  ENSURES(b.Parse(ClusterOn(&f)) < 0, "a byte that cannot be read is reported");
}
//@ proof block_unreadable0 functions=Block::Parse
VF_PROOF(block_unreadable0) {
  Unreadable(0, 0);
  Unreadable(0, 1);
  Unreadable(0, 2);
}
//@ proof block_unreadable1 kind=bounded bound="2 frames" functions=Block::Parse
VF_PROOF(block_unreadable1) {
  Unreadable(1, 0);
  Unreadable(1, 1);
  Unreadable(1, 2);
  Unreadable(1, 3);
  Unreadable(1, 4);
}
//@ proof block_unreadable2 kind=bounded bound="2 frames" functions=Block::Parse
VF_PROOF(block_unreadable2) {
  Unreadable(2, 0);
  Unreadable(2, 1);
  Unreadable(2, 2);
  Unreadable(2, 3);
}
//@ proof block_unreadable3 kind=bounded bound="2 frames" functions=Block::Parse
VF_PROOF(block_unreadable3) {
  Unreadable(3, 0);
  Unreadable(3, 1);
  Unreadable(3, 2);
  Unreadable(3, 3);
  Unreadable(3, 4);
}
//@ proof block_time kind=bounded bound="cluster time below 2^32, timecode scale 1, 1000 or 1000000" functions=Block::GetTimeCode,Block::GetTime,Cluster::GetTimeCode,SegmentInfo::GetTimeCodeScale
VF_PROOF(block_time) {
  static Slot<SegmentInfo> info;
  static Slot<Segment> seg;
  const Cluster* c = ClusterOn(nullptr);
  *const_cast<Segment**>(&g_cluster.v.m_pSegment) = &seg.v;
  *const_cast<SegmentInfo**>(&seg.v.m_pInfo) = &info.v;
  unsigned k = (unsigned)vf_range(0, 2);
  info.v.m_timecodeScale = k == 0 ? 1 : k == 1 ? 1000 : 1000000;
  long long t = (long long)(vf_nondet_u64() & 0xffffffff);
  g_cluster.v.m_timecode = t;
  g_cluster.v.m_pos = 1;
  Block& b = *new (&g_block.v) Block(kBase, 10, 0);
  b.m_timecode = (short)vf_nondet_u16();
  ENSURES(b.GetTimeCode(c) == t + b.m_timecode, "cluster time plus relative time");
  if (t + b.m_timecode < 0) return;
  ENSURES(b.GetTime(c) == (t + b.m_timecode) * info.v.m_timecodeScale,
          "time in nanoseconds");
}
//@ proof block_frame_read functions=Block::Frame::Read
VF_PROOF(block_frame_read) {
  struct R final : IMkvReader {
    long long pos = -1;
    long len = -1;
    unsigned char* buf = nullptr;
    int result = 0;
    int Read(long long p, long l, unsigned char* b) override {
      pos = p;
      len = l;
      buf = b;
      return result;
    }
    int Length(long long*, long long*) override { return -1; }
  } r;
  r.result = vf_nondet_i32();
  Block::Frame f;
  f.pos = vf_nondet_i64();
  f.len = vf_nondet_i64();
  unsigned char buf[1];
  long st = f.Read(&r, buf);
  ENSURES(st == r.result, "result of the read");
  ENSURES(r.pos == f.pos && r.len == f.len && r.buf == buf,
          "exactly the frame is read");
}
