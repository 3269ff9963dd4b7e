//@ file property=C08 src=common,mkv unwind=10 unwind_cap=40 cdefine=VF_MEM_BYTEWISE
// Stream inspection helpers: VP9 superframe index, VP9 uncompressed header,
// VP9 CodecPrivate, byte order.
#include "ebml_spec.h"
#include "common/hdr_util.h"
#include "common/libwebm_util.h"
#include "common/vp9_header_parser.h"
#include "common/webm_endian.h"
#include <climits>
using namespace libwebm;

//@ proof endian functions=host_to_bigendian,bigendian_to_host
VF_PROOF(endian) {
  uint32_t a = vf_nondet_u32();
  uint64_t b = vf_nondet_u64();
  uint8_t c[8];
  uint32_t x = host_to_bigendian(a);
  memcpy(c, &x, 4);
  for (int i = 0; i < 4; ++i)
    ENSURES(c[i] == (uint8_t)(a >> (24 - 8 * i)), "big-endian bytes");
  ENSURES(bigendian_to_host(x) == a, "inverse");
  uint64_t y = host_to_bigendian(b);
  memcpy(c, &y, 8);
  for (int i = 0; i < 8; ++i)
    ENSURES(c[i] == (uint8_t)(b >> (56 - 8 * i)), "big-endian bytes");
  ENSURES(bigendian_to_host(y) == b, "inverse");
}
// ---- CodecPrivate --------------------------------------------------------------
static bool ValidFeature(uint8_t id, uint8_t v) {
  static const uint8_t level[14] = {10, 11, 20, 21, 30, 31, 40,
                                    41, 50, 51, 52, 60, 61, 62};
  bool ok = false;
  if (id == 1 || id == 4) ok = v <= 3;
  if (id == 3) ok = v == 8 || v == 10 || v == 12;
  if (id == 2)
    for (int i = 0; i < 14; ++i) ok |= v == level[i];
  return ok;
}
//@ proof codec_private kind=bounded bound="up to 4 features (14 bytes)" unwind=16 functions=ParseVpxCodecPrivate
VF_PROOF(codec_private) {
  uint8_t d[14];
  for (int i = 0; i < 14; ++i) d[i] = vf_nondet_u8();
  int32_t n = vf_nondet_i32();
  REQUIRES(n <= 14);
  uint8_t* p = (uint8_t*)vf_alloc(n < 0 ? 0 : (uint64_t)n);
  for (int i = 0; i < n; ++i) p[i] = d[i];
  Vp9CodecFeatures f;
  bool r = ParseVpxCodecPrivate(p, n, &f);
  int want[5] = {INT_MAX, INT_MAX, INT_MAX, INT_MAX, INT_MAX};
  bool ok = n >= 3;
  for (int i = 0; i + 3 <= 14; i += 3) {
    if (i + 3 > n) break;
    if (d[i + 1] != 1 || !ValidFeature(d[i], d[i + 2])) {
      ok = false;
      break;
    }
    int& w = want[d[i]];
    if (w != INT_MAX && w != d[i + 2]) ok = false;
    w = d[i + 2];
  }
  ENSURES(r == ok, "valid CodecPrivate is accepted, invalid one refused");
  if (r)
    ENSURES(f.profile == want[1] && f.level == want[2] &&
                f.bit_depth == want[3] && f.chroma_subsampling == want[4],
            "each feature has its value, absent ones are marked absent");
  vf_cover(r && n >= 12, "accepted");
}
//@ proof codec_private_null functions=ParseVpxCodecPrivate
VF_PROOF(codec_private_null) {
  uint8_t d[3] = {1, 1, 1};
  Vp9CodecFeatures f;
  ENSURES(!ParseVpxCodecPrivate(nullptr, 3, &f) &&
              !ParseVpxCodecPrivate(d, 3, nullptr),
          "absent arguments are refused");
}
// ---- superframe index -----------------------------------------------------------
// A frame of `n` bytes whose last byte announces an index.
static void SuperframeOf(unsigned frames, unsigned mag, unsigned n) {
  uint8_t marker = (uint8_t)(0xc0 | (mag - 1) << 3 | (frames - 1));
  const unsigned index = 2 + mag * frames;
  uint8_t* d = (uint8_t*)vf_alloc(n);
  for (unsigned i = 0; i < n; ++i) d[i] = vf_nondet_u8();
  d[n - 1] = marker;
  Ranges r;
  bool err = false;
  bool ok = ParseVP9SuperFrameIndex(d, n, &r, &err);
  bool want = n >= 2 * index && d[n - index] == marker;
  uint64_t at = 0;
  uint64_t size[8];
  if (want)
    for (unsigned i = 0; i < frames; ++i) {
      uint64_t v = 0;
      for (unsigned j = 0; j < mag; ++j)
        v |= (uint64_t)d[n - index + 1 + i * mag + j] << (8 * j);
      size[i] = v;
      if (want && v > n - index - at) want = false;
      at += v;
    }
  ENSURES(ok == want && err == !want, "an index that fits is accepted");
  if (!ok) return;
  ENSURES(r.size() == frames, "one range per frame");
  at = 0;
  for (unsigned i = 0; i < frames; ++i) {
    ENSURES(r[i].offset == at && r[i].length == size[i],
            "frames lie back to back with the sizes of the index");
    at += size[i];
  }
  vf_cover(true, "accepted");
}
//@ proof superframe_1 kind=bounded bound="1 frame, sizes of 1 to 4 bytes, 24 bytes" unwind=26 functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_1) {
  for (unsigned mag = 1; mag <= 4; ++mag) SuperframeOf(1, mag, 24);
}
//@ proof superframe_2 kind=bounded bound="2 frames, sizes of 1 to 4 bytes, 24 bytes" unwind=26 functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_2) {
  for (unsigned mag = 1; mag <= 4; ++mag) SuperframeOf(2, mag, 24);
}
//@ proof superframe_3 kind=bounded bound="3 frames, sizes of 1 to 3 bytes, 28 bytes" unwind=34 functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_3) {
  for (unsigned mag = 1; mag <= 3; ++mag) SuperframeOf(3, mag, 28);
}
//@ proof superframe_8 kind=bounded bound="8 frames, sizes of 1, 2 and 4 bytes, 60 to 300 bytes" unwind=301 unwind_cap=310 functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_8) {
  SuperframeOf(8, 1, 60);
  SuperframeOf(8, 2, 300);
  SuperframeOf(8, 4, 70);
}
//@ proof superframe_short kind=bounded bound="up to 14 bytes" unwind=16 functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_short) {
  for (unsigned n = 1; n <= 14; ++n) SuperframeOf(3, 4, n);
  for (unsigned n = 1; n <= 14; ++n) SuperframeOf(1, 1, n);
}
//@ proof superframe_none functions=ParseVP9SuperFrameIndex
VF_PROOF(superframe_none) {
  uint64_t n = vf_range(1, 1u << 20);
  uint8_t* d = (uint8_t*)vf_alloc(n);
  uint8_t last = vf_nondet_u8();
  REQUIRES((last & 0xe0) != 0xc0);
  d[n - 1] = last;
  Ranges r;
  bool err = false;
  ENSURES(!ParseVP9SuperFrameIndex(d, n, &r, &err) && !err && r.empty(),
          "a frame without a marker has no index");
  ENSURES(!ParseVP9SuperFrameIndex(nullptr, n, &r, &err) &&
              !ParseVP9SuperFrameIndex(d, 0, &r, &err) &&
              !ParseVP9SuperFrameIndex(d, n, nullptr, &err) &&
              !ParseVP9SuperFrameIndex(d, n, &r, nullptr),
          "absent arguments are refused");
}

// ---- VP9 uncompressed header ------------------------------------------------------
// The harness generates a header by the syntax tables of the VP9 bitstream
// specification (section 6.2); bits that decide which fields follow are
// enumerated, all others are arbitrary.
using vp9_parser::Vp9HeaderParser;
static const unsigned kBits = 272;
static bool bit[kBits];
static unsigned nbits;
__attribute__((noinline)) static unsigned Any(unsigned n) {
  unsigned v = 0;
  for (unsigned i = 0; i < n; ++i) {
    bool b = vf_nondet_bool();
    bit[nbits++] = b;
    v = v << 1 | (unsigned)b;
  }
  return v;
}
__attribute__((noinline)) static unsigned Put(unsigned v, unsigned n) {
  for (unsigned i = n; i-- > 0;) bit[nbits++] = (v >> i) & 1;
  return v;
}
static int ReadBitC(Vp9HeaderParser* p) {
  unsigned at = (unsigned)p->bit_offset_++;
  return at < nbits ? bit[at] : vf_havoc_bool();
}
VF_CONTRACT(bits, readbit, &Vp9HeaderParser::ReadBit, &ReadBitC)
//@ proof vp9_readbit functions=Vp9HeaderParser::ReadBit
VF_PROOF(vp9_readbit) {
  uint64_t n = vf_range(1, 1u << 20), off = vf_range(0, 1u << 24);
  uint8_t* d = (uint8_t*)vf_alloc(n);
  Vp9HeaderParser p;
  ENSURES(p.SetFrame(d, n), "frame accepted");
  uint8_t v = vf_nondet_u8();
  if (off / 8 < n) d[off / 8] = v;
  p.bit_offset_ = off;
  int b = p.ReadBit();
  if (off / 8 < n)
    ENSURES(b == ((v >> (7 - off % 8)) & 1) && p.bit_offset_ == off + 1,
            "bits are taken from the most significant one on");
  else
    ENSURES(b == 0, "nothing is read past the end of the frame");
}
struct Want {
  unsigned w, h, dw, dh, depth, space, rows, cols, parallel, refresh;
  bool valid, sized, coloured, tiled;
};
static Vp9HeaderParser* Parser;
static bool Parse() {
  static uint8_t d[kBits / 8];
#ifdef VF_NATIVE
  for (unsigned i = 0; i < kBits / 8; ++i) d[i] = 0;
  for (unsigned i = 0; i < nbits; ++i) d[i / 8] |= bit[i] << (7 - i % 8);
#endif
  return Parser->ParseUncompressedHeader(d, kBits / 8);
}
static void Size(Want& x, bool display) {
  x.sized = true;
  x.w = Any(16) + 1;
  x.h = Any(16) + 1;
  x.dw = x.w;
  x.dh = x.h;
  if (Put(display, 1)) {
    x.dw = Any(16) + 1;
    x.dh = Any(16) + 1;
  }
}
static void Colour(Want& x, unsigned profile, unsigned space) {
  x.coloured = true;
  x.depth = profile >= 2 ? (Any(1) ? 12 : 10) : 8;
  x.space = Put(space, 3);
  if (x.space != 7) {
    Any(1);
    if (profile & 1) Any(2), Put(0, 1);
  } else if (profile & 1) {
    Put(0, 1);
  }
}
// `deltas`: bit 0 loop filter deltas enabled, bit 1 updated, bits 2 to 7 which
// of them, bits 8 to 10 which quantizer deltas, bit 11 segmentation
static void Tiles(Want& x, unsigned deltas) {
  Any(2);
  Any(9);
  if (Put(deltas & 1, 1) && Put((deltas >> 1) & 1, 1)) {
    for (int i = 0; i < 6; ++i)
      if (Put((deltas >> (2 + i)) & 1, 1)) Any(7);
  }
  Any(8);
  for (int i = 0; i < 3; ++i)
    if (Put((deltas >> (8 + i)) & 1, 1)) Any(5);
  if (Put((deltas >> 11) & 1, 1)) return;
  x.tiled = true;
  unsigned sb = (x.w + 63) / 64, min = 0, max = 1;
  while ((64u << min) < sb) ++min;
  while ((sb >> max) >= 4) ++max;
  --max;
  const unsigned tail = nbits;
  Any(10);
  unsigned cols = min, used = 0;
  for (unsigned i = 0; i < 8; ++i)
    if (used == i && cols < max) {
      ++used;
      if (!bit[tail + i]) break;
      ++cols;
    }
  x.cols = 1u << cols;
  unsigned rows = 0;
  for (unsigned i = 0; i < 9; ++i)
    if (used == i) rows = bit[tail + i] ? 1 + bit[tail + i + 1] : 0;
  x.rows = 1u << rows;
}
static void Start(unsigned profile, bool key, bool show, bool resilient) {
  nbits = 0;
  Put(2, 2);
  Put(profile & 1, 1);
  Put(profile >> 1, 1);
  if (profile == 3) Put(0, 1);
  Put(0, 1);
  Put(!key, 1);
  Put(show, 1);
  Put(resilient, 1);
}
static void Check(const Want& x, unsigned profile, bool key, bool show,
                  bool resilient) {
  // a parser that has seen another frame before
  Vp9HeaderParser p;
  p.bit_offset_ = vf_nondet_u32();
  p.profile_ = p.key_ = p.altref_ = p.intra_only_ = 1;
  p.refresh_frame_flags_ = 5;
  p.width_ = 1919;
  p.height_ = 1079;
  p.display_width_ = 639;
  p.display_height_ = 479;
  Parser = &p;
  bool ok = Parse();
  ENSURES(ok == x.valid, "a header with marker and sync code is accepted");
  if (!ok) return;
  ENSURES(p.profile() == (int)profile && !!p.key() == key &&
              !!p.altref() == !show &&
              !!p.error_resilient_mode() == resilient,
          "profile, frame type, visibility, resilience");
  if (!key)
    ENSURES(p.refresh_frame_flags() == (int)x.refresh, "refresh flags");
  if (x.coloured)
    ENSURES(p.bit_depth() == (int)x.depth && p.color_space() == (int)x.space,
            "bit depth and colour space");
  if (x.sized)
    ENSURES(p.width() == (int)x.w && p.height() == (int)x.h &&
                p.display_width() == (int)x.dw &&
                p.display_height() == (int)x.dh,
            "frame and display size");
  else
    ENSURES(p.width() == 1919 && p.height() == 1079 &&
                p.display_width() == 639 && p.display_height() == 479,
            "a frame sized like its reference keeps the size");
  if (key) ENSURES(p.frame_parallel_mode() == (int)x.parallel, "parallel mode");
  if (x.tiled)
    ENSURES(p.row_tiles() == (int)x.rows && p.column_tiles() == (int)x.cols,
            "tile rows and columns");
  vf_cover(true, "accepted");
}
//@ proof vp9_inter contracts=bits flags="--max-field-sensitivity-array-size 300" unwind=800 unwind_cap=800 functions=Vp9HeaderParser::ParseUncompressedHeader
VF_PROOF(vp9_inter) {
  for (unsigned p = 0; p < 4; ++p)
    for (unsigned k = 0; k < 16; ++k) {
      bool show = k & 1, resilient = k & 2;
      Want x = {};
      x.valid = true;
      Start(p, false, show, resilient);
      if (!show) Put(0, 1);
      if (!resilient) Any(2);
      x.refresh = Any(8);
      Any(12);
      unsigned found = k >> 2;  // the reference the size comes from; 3: none
      for (unsigned i = 0; i < 3 && i <= found; ++i) Put(i == found, 1);
      if (found == 3) Size(x, resilient);
      Check(x, p, false, show, resilient);
    }
}
//@ proof vp9_intra contracts=bits flags="--max-field-sensitivity-array-size 300" unwind=26 unwind_cap=70 functions=Vp9HeaderParser::ParseUncompressedHeader
VF_PROOF(vp9_intra) {
  for (unsigned p = 0; p < 4; ++p)
    for (unsigned k = 0; k < 8; ++k) {
      bool resilient = k & 1;
      Want x = {};
      Start(p, false, false, resilient);
      Put(1, 1);
      if (!resilient) Any(2);
      x.valid = Any(24) == 0x498342;
      x.coloured = true;
      x.depth = 8;
      x.space = 1;
      if (p > 0) Colour(x, p, k & 2 ? 7 : 2);
      x.refresh = Any(8);
      Size(x, k & 4);
      Check(x, p, false, false, resilient);
    }
}
static void Key(unsigned p, bool resilient, unsigned space, bool display,
                unsigned deltas) {
  Want x = {};
  bool show = vf_nondet_bool();
  Start(p, true, show, resilient);
  x.valid = Any(24) == 0x498342;
  Colour(x, p, space);
  Size(x, display);
  x.parallel = 1;
  if (!resilient) {
    Any(1);
    x.parallel = Any(1);
  }
  Tiles(x, deltas);
  Check(x, p, true, show, resilient);
}
//@ proof vp9_key contracts=bits flags="--max-field-sensitivity-array-size 300" unwind=26 unwind_cap=70 functions=Vp9HeaderParser::ParseUncompressedHeader
VF_PROOF(vp9_key) {
  for (unsigned p = 0; p < 4; ++p)
    for (unsigned space = 0; space < 8; ++space)
      Key(p, space & 1, space, space & 2, 0x800);
}
//@ proof vp9_tiles contracts=bits flags="--max-field-sensitivity-array-size 300" unwind=26 unwind_cap=70 functions=Vp9HeaderParser::ParseUncompressedHeader
VF_PROOF(vp9_tiles) {
  Key(0, false, 2, false, 0);
  Key(3, true, 7, true, 1);
  Key(1, false, 7, false, 0x203);
  Key(2, true, 2, true, 0x5a7);
  Key(0, true, 2, true, 0x15b);
  Key(0, true, 2, true, 0x7ff);
}
//@ proof vp9_refused contracts=bits flags="--max-field-sensitivity-array-size 300" unwind=26 unwind_cap=70 functions=Vp9HeaderParser::ParseUncompressedHeader,Vp9HeaderParser::SetFrame
VF_PROOF(vp9_refused) {
  Vp9HeaderParser p;
  Parser = &p;
  uint8_t d[1];
  ENSURES(!p.ParseUncompressedHeader(nullptr, 1) &&
              !p.ParseUncompressedHeader(d, 0),
          "an absent frame is refused");
  for (unsigned m = 0; m < 4; ++m) {
    nbits = 0;
    Put(m, 2);
    Any(2);
    Put(1, 1);  // shows an existing frame (or reserved bit, then shown)
    Put(1, 1);
    ENSURES(Parse() == (m == 2), "the frame marker is required");
  }
}
