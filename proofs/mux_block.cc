//@ file property=C03 src=mkv unwind=12 solver=cadical contracts=enc
// Blocks: what WriteFrame emits for a frame.
#include "mux_common.h"

static Frame* AnyFrame(unsigned lenbits) {
  Frame* f = Make<Frame>();
  f->length_ = Bits(lenbits);
#ifdef VF_NATIVE
  REQUIRES(f->length_ < (1u << 28));
#endif
  if (vf_nondet_bool()) f->frame_ = (uint8_t*)vf_alloc(f->length_);
  f->track_number_ = vf_nondet_u64();
  f->is_key_ = vf_nondet_bool();
  return f;
}
static bool TrackNumberOk(const Frame* f) {
  return f->track_number_ >= 1 && f->track_number_ <= 126;
}
// payload of a (Simple)Block: track number, relative time, flags, frame data
static void ExpBlock(Exp& e, uint64_t id, const Frame* f, uint64_t rel,
                     uint8_t flags) {
  LW& w = e.w;
  e.N(id, 1);
  if (w.wid != id || !w.count) return;
  ENSURES(w.vLen == f->length_ + 4, "block size = header + frame");
  uint64_t i = w.wbyte;
  if (i == 0) ENSURES(w.vByte == (0x80 | f->track_number_), "track number");
  if (i == 1) ENSURES(w.vByte == (uint8_t)(rel >> 8), "relative time");
  if (i == 2) ENSURES(w.vByte == (uint8_t)rel, "relative time");
  if (i == 3) ENSURES(w.vByte == flags, "block flags");
  if (i >= 4 && i - 4 < f->length_)
    ENSURES(w.vByte == f->frame_[i - 4], "frame data");
}
static Cluster* AnyCluster(uint64_t scale) {
  uint64_t tc = vf_nondet_u64();
  REQUIRES(tc <= INT64_MAX);
  return Make<Cluster>(tc, (int64_t)0, scale, false, false);
}
static void Simple(LW& w, uint64_t scale, uint64_t ticks, uint64_t ts) {
  REQUIRES(ticks <= INT64_MAX);
  Frame* f = AnyFrame(32);
  f->timestamp_ = ts;
  Cluster* c = AnyCluster(scale);
  uint64_t r = WriteFrame(&w, f, c);
  bool valid = f->length_ && f->frame_ &&
               TrackNumberOk(f) && scale && ticks >= c->timecode_ &&
               ticks - c->timecode_ <= 32767;
  if (w.failed) {
    ENSURES(r == 0, "a failed write is reported");
    return;
  }
  ENSURES((r != 0) == valid, "a valid frame is written, another is refused");
  ENSURES(WriteFrame(nullptr, f, c) == 0, "null writer is rejected");
  ENSURES(WriteFrame(&w, nullptr, c) == 0, "null frame is rejected");
  ENSURES(WriteFrame(&w, f, nullptr) == 0, "null cluster is rejected");
  vf_cover(r, "written");
  if (!w.log) return;
  if (!r) {
    ENSURES(w.n == 0,
            "nothing is written for a refused frame");
    return;
  }
  w.Finish();
  ENSURES(w.n == r, "returns the bytes written");
  Exp e(w);
  ExpBlock(e, 0xA3, f, ticks - c->timecode_, f->is_key_ ? 0x80 : 0);
  e.Done();
}
//@ proof simple_block functions=WriteFrame,WriteSimpleBlock,Frame::IsValid,Frame::CanBeSimpleBlock,Cluster::GetRelativeTimecode
VF_PROOF(simple_block) {
  LW w;
  w.Log();
  uint64_t ts = vf_nondet_u64();
  Simple(w, 1, ts, ts);
}
//@ proof simple_block_fail functions=WriteFrame,WriteSimpleBlock
VF_PROOF(simple_block_fail) {
  LW w;
  w.Failing();
  uint64_t ts = vf_nondet_u64();
  Simple(w, 1, ts, ts);
}
//@ proof simple_block_scale kind=bounded bound="timecode scale 0 or 1000000, at most 2^16 ticks" functions=WriteFrame
VF_PROOF(simple_block_scale) {
  LW w;
  w.Log();
  uint64_t scale = vf_nondet_bool() ? 1000000 : 0;
  uint64_t ticks = Bits(16), r = vf_nondet_u64();
  REQUIRES(r < scale || scale == 0);
  Simple(w, scale, ticks, ticks * scale + r);
}
//@ proof simple_block_anyscale kind=bounded bound="timecode scale below 256, at most 255 ticks" functions=WriteFrame
VF_PROOF(simple_block_anyscale) {
  LW w;
  w.Log();
  uint64_t scale = Bits(8);
  uint64_t ticks = Bits(8), r = Bits(8);
  REQUIRES(r < scale);
  Simple(w, scale, ticks, ticks * scale + r);
}

// `add`: with additional data; `rest`: with padding, duration, reference
static void Group(LW& w, uint64_t scale, bool add, bool rest = true,
                  unsigned len = 15) {
  Frame* f = AnyFrame(len);
  uint64_t ticks = vf_nondet_u64();
  REQUIRES(ticks <= INT64_MAX);
  f->timestamp_ = ticks;
  Cluster* c = AnyCluster(scale);
  if (add) f->additional_ = (uint8_t*)vf_alloc(1 << 15);
  f->additional_length_ = Bits(len);
  f->add_id_ = vf_nondet_u64();
  f->discard_padding_ = vf_nondet_i64();
  uint64_t dur = vf_nondet_u64();
  if (vf_nondet_bool()) f->set_duration(dur);
  bool ref = vf_nondet_bool();
  uint64_t rt = vf_nondet_u64();
  REQUIRES(rt <= INT64_MAX);
  if (ref) f->set_reference_block_timestamp((int64_t)rt);
  if (!rest) {
    f->is_key_ = true;
    f->discard_padding_ = 0;
    f->duration_ = 0;
  }
  REQUIRES(f->additional_ || f->discard_padding_ || f->duration_);
  bool valid = f->length_ && f->frame_ && TrackNumberOk(f) &&
               (f->additional_ != nullptr) == (f->additional_length_ != 0) &&
               (f->is_key_ || ref) && ticks >= c->timecode_ &&
               ticks - c->timecode_ <= 32767;
  uint64_t r = WriteFrame(&w, f, c);
  if (w.failed) {
    ENSURES(r == 0, "a failed write is reported");
    return;
  }
  ENSURES((r != 0) == valid, "a valid frame is written, another is refused");
  vf_cover(r, "written");
  if (!w.log) return;
  if (!r) {
    ENSURES(w.n == 0, "nothing is written for a refused frame");
    return;
  }
  w.Finish();
  ENSURES(w.n == r, "returns the bytes written");
  Exp e(w);
  e.N(0xA0, 1);
  ExpBlock(e, 0xA1, f, ticks - c->timecode_, 0);
  e.N(0x75A1, add);
  e.N(0xA6, add);
  e.U(0xEE, add, f->add_id_);
  e.B(0xA5, add, f->additional_, f->additional_length_);
  e.U(0x9B, f->duration_ > 0, f->duration_);
  e.U(0xFB, !f->is_key_, rt);
  e.N(0x75A2, f->discard_padding_ != 0);
  if (w.wid == 0x75A2 && w.count) {
    unsigned l = spec::IntLen(f->discard_padding_);
    uint64_t mask = l == 8 ? ~0ull : (1ull << (8 * l)) - 1;
    ENSURES(w.vLen == l && w.vU == ((uint64_t)f->discard_padding_ & mask),
            "discard padding holds the configured value");
  }
  e.Done();
}
//@ proof block_group functions=WriteFrame,WriteBlock
VF_PROOF(block_group) {
  LW w;
  w.Log();
  Group(w, 1, false);
}
//@ proof block_group_fail functions=WriteFrame,WriteBlock
VF_PROOF(block_group_fail) {
  LW w;
  w.Failing();
  Group(w, 1, false);
}
//@ proof block_additions kind=bounded bound="frame and additional data below 256 bytes" functions=WriteFrame,WriteBlock
VF_PROOF(block_additions) {
  LW w;
  w.Log();
  Group(w, 1, true, false, 8);
}
//@ proof block_additions_rest kind=bounded bound="additional data with padding, duration and reference: data lengths below 4" functions=WriteFrame,WriteBlock
VF_PROOF(block_additions_rest) {
  LW w;
  w.Log();
  Group(w, 1, true, true, 2);
}
//@ proof block_additions_fail functions=WriteFrame,WriteBlock
VF_PROOF(block_additions_fail) {
  LW w;
  w.Failing();
  Group(w, 1, true);
}
