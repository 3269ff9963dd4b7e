//@ file property=C10 src=m2ts unwind=12 unwind_cap=24 cdefine=VF_MEM_BYTEWISE
// WebM to PES and MPEG-2 TS packetisation.
#include "ebml_spec.h"
#include "slot.h"
#include "common/libwebm_util.h"
#include "m2ts/vpxpes2ts.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
#include <cstdio>
using namespace libwebm;
typedef std::vector<uint8_t> Bytes;

//@ proof pes_pts functions=PesOptionalHeader::SetPtsBits
VF_PROOF(pes_pts) {
  uint64_t t = vf_nondet_u64() & ((1ull << 33) - 1);
  libwebm::PesOptionalHeader h;
  h.pts.bits = vf_nondet_u64();
  h.SetPtsBits((int64_t)t);
  uint64_t want = 2ull << 36 | (t >> 30) << 33 | 1ull << 32 |
                  ((t >> 15) & 0x7fff) << 17 | 1ull << 16 | (t & 0x7fff) << 1 |
                  1;
  for (int i = 0; i < 5; ++i)  // bytes are written from the lowest one on
    ENSURES((uint8_t)(h.pts.bits >> (8 * i)) ==
                (uint8_t)(want >> (32 - 8 * i)),
            "33-bit time with marker bits");
}
// ---- start code escaping ----------------------------------------------------------
// The proofs below give the vector the room it needs, so growing it is an
// unreachable case (and asserted to be).
#ifndef VF_NATIVE
typedef Bytes::iterator It;
static void GrowC(Bytes*, It, const uint8_t&) {
  ENSURES(false, "room enough");
  REQUIRES(false);
}
static void GrowM(Bytes*, It, uint8_t&&) {
  ENSURES(false, "room enough");
  REQUIRES(false);
}
VF_CONTRACT(room, growc, &Bytes::_M_realloc_insert<const uint8_t&>, &GrowC)
VF_CONTRACT(room, growm, &Bytes::_M_realloc_insert<uint8_t>, &GrowM)
#endif
template <unsigned N>
static void Escape() {
  uint8_t d[N];
  for (unsigned i = 0; i < N; ++i) d[i] = vf_nondet_u8();
  Bytes out;
  out.reserve(2 * N);
  ENSURES(CopyAndEscapeStartCodes(d, N, &out), "accepted");
  unsigned at = 0, zeros = 0;
  for (unsigned i = 0; i < N; ++i) {
    if (zeros >= 2 && (d[i] == 1 || d[i] == 3)) {
      ENSURES(at < out.size() && out[at] == 3, "escaped");
      ++at;
    }
    zeros = d[i] ? 0 : zeros + 1;
    ENSURES(at < out.size() && out[at] == d[i], "the byte itself");
    ++at;
  }
  ENSURES(out.size() == at, "nothing else");
  for (unsigned i = 0; i + 2 < 2 * N; ++i)
    if (i + 2 < out.size())
      ENSURES(out[i] | out[i + 1] | (out[i + 2] ^ 1), "no start code");
}
//@ proof pes_escape4 contracts=room kind=bounded bound="4 bytes" functions=CopyAndEscapeStartCodes
VF_PROOF(pes_escape4) { Escape<4>(); }
//@ proof pes_escape16 contracts=room kind=bounded bound="16 bytes" unwind=34 unwind_cap=34 functions=CopyAndEscapeStartCodes
VF_PROOF(pes_escape16) { Escape<16>(); }
//@ proof pes_escape_args functions=CopyAndEscapeStartCodes
VF_PROOF(pes_escape_args) {
  uint8_t d[2] = {1, 2};
  Bytes out;
  ENSURES(!CopyAndEscapeStartCodes(nullptr, 2, &out) &&
              !CopyAndEscapeStartCodes(d, 0, &out) &&
              !CopyAndEscapeStartCodes(d, 2, nullptr) && out.empty(),
          "absent arguments are refused");
}
// ---- headers ----------------------------------------------------------------------
// Contract of CopyAndEscapeStartCodes: records the piece.
struct Piece {
  const uint8_t* p;
  uint64_t n;
  int kind;  // 0 payload, 1 PES header with time, 2 without, 3 BCMV header
};
static Piece pieces[16];
static unsigned npieces;
static uint8_t small[16];
static bool CopyC(const uint8_t* p, size_t n, Bytes* out) {
  if (!p || n < 1 || !out) return false;
  ENSURES(vf_r_ok(p, n), "reads inside the frame");
  ENSURES(npieces < 16, "bounded");
  if (n <= 16)
    for (unsigned i = 0; i < 16; ++i)
      if (i < n) small[i] = p[i];
  pieces[npieces++] = Piece{p, n, 0};
  return true;
}
VF_CONTRACT(esc, copy, &CopyAndEscapeStartCodes, &CopyC)
#ifdef VF_NATIVE
// natively the header bytes hold no escape unless three zero bytes meet
static void Collect(const Bytes& b, unsigned from) {
  unsigned k = 0, zeros = 0;
  for (size_t i = from; i < b.size() && k < 16; ++i) {
    if (zeros >= 2 && b[i] == 3) {
      zeros = 0;
      continue;
    }
    zeros = b[i] ? 0 : zeros + 1;
    small[k++] = b[i];
  }
}
#else
static void Collect(const Bytes&, unsigned) {}
#endif
//@ proof pes_optional contracts=esc unwind=17 functions=PesOptionalHeader::Write
VF_PROOF(pes_optional) {
  uint64_t t = vf_nondet_u64() & ((1ull << 33) - 1);
  for (int pts = 0; pts < 2; ++pts) {
    libwebm::PesOptionalHeader h;
    h.SetPtsBits((int64_t)t);
    Bytes out;
    npieces = 0;
    ENSURES(h.Write(pts, &out), "written");
    Collect(out, 0);
    ENSURES(small[0] == 0x80 && small[1] == (pts ? 0x80 : 0) && small[2] == 6,
            "flags and remaining size");
    uint64_t want = 2ull << 36 | (t >> 30) << 33 | 1ull << 32 |
                    ((t >> 15) & 0x7fff) << 17 | 1ull << 16 |
                    (t & 0x7fff) << 1 | 1;
    for (int i = 0; i < 5; ++i)
      ENSURES(small[3 + i] == (pts ? (uint8_t)(want >> (32 - 8 * i)) : 0xff),
              "time or stuffing");
    ENSURES(small[8] == 0xff, "stuffing");
    ENSURES(!h.Write(pts, nullptr), "absent buffer");
  }
}
//@ proof pes_bcmv contracts=esc unwind=17 functions=BCMVHeader::Write
VF_PROOF(pes_bcmv) {
  uint32_t n = vf_nondet_u32();
  REQUIRES(n <= 0xffffffffu - 10);
  BCMVHeader h(n);
  Bytes out;
  npieces = 0;
  ENSURES(h.Write(&out), "written");
  Collect(out, 4);
  ENSURES(out[0] == 'B' && out[1] == 'C' && out[2] == 'M' && out[3] == 'V',
          "magic");
  for (int i = 0; i < 4; ++i)
    ENSURES(small[i] == (uint8_t)((n + 10) >> (24 - 8 * i)),
            "frame length plus header length");
  ENSURES(small[4] == 0 && small[5] == 0, "padding");
}
static bool g_pts;
static unsigned g_opt;
static bool OptC(const libwebm::PesOptionalHeader*, bool pts, Bytes*) {
  ++g_opt;
  g_pts = pts;
  return true;
}
VF_CONTRACT(opt, opt, &libwebm::PesOptionalHeader::Write, &OptC)
//@ proof pes_header contracts=opt functions=PesHeader::Write
VF_PROOF(pes_header) {
  libwebm::PesHeader h;
  h.packet_length = vf_nondet_u16();
  Bytes out;
  g_opt = 0;
  bool pts = vf_nondet_bool();
  bool ok = h.Write(pts, &out);
  uint32_t n = h.packet_length + 9u;
  ENSURES(ok == (n <= 0xffff), "a length that does not fit is refused");
  if (!ok) return;
  ENSURES(out[0] == 0 && out[1] == 0 && out[2] == 1 && out[3] == 0xe0 &&
              out[4] == (uint8_t)(n >> 8) && out[5] == (uint8_t)n,
          "start code, stream and length");
#ifndef VF_NATIVE
  ENSURES(out.size() == 6 && g_opt == 1 && g_pts == pts, "optional header");
#endif
}
// ---- packets -------------------------------------------------------------------------
static bool HeadC(const libwebm::PesHeader* h, bool pts, Bytes*) {
  ENSURES(npieces < 16, "bounded");
  pieces[npieces++] = Piece{nullptr, h->packet_length, pts ? 1 : 2};
  return true;
}
static bool BcmvC(const BCMVHeader* h, Bytes*) {
  ENSURES(npieces < 16, "bounded");
  pieces[npieces++] = Piece{nullptr, h->length, 3};
  return true;
}
static unsigned g_ranges;
static bool g_error;
struct Part {
  uint64_t offset, length;
};
static Part g_range[3];
static const uint8_t* g_frame;
static size_t g_len;
static bool SuperC(const uint8_t* p, size_t n, Ranges* out, bool* error) {
  ENSURES(p == g_frame && n == g_len && out->empty(), "the frame");
  *error = g_error;
  if (g_error || !g_ranges) return false;
  for (unsigned i = 0; i < g_ranges; ++i) 
    out->push_back(Range(g_range[i].offset, g_range[i].length));
  return true;
}
static int64_t TicksC(int64_t ns) { return (int64_t)vf_havoc_u64(); }
typedef bool (BCMVHeader::*BcmvWrite)(PacketDataBuffer*) const;
VF_CONTRACT(pk, copy, &CopyAndEscapeStartCodes, &CopyC)
VF_CONTRACT(pk, head, &libwebm::PesHeader::Write, &HeadC)
VF_CONTRACT(pk, bcmv, (BcmvWrite)&BCMVHeader::Write, &BcmvC)
VF_CONTRACT(pk, super, &ParseVP9SuperFrameIndex, &SuperC)
VF_CONTRACT(pk, ticks, &NanosecondsTo90KhzTicks, &TicksC)
#ifdef VF_NATIVE
// what the packets of one frame must look like, byte for byte
static void Put(Bytes& o, const uint8_t* p, size_t n) {
  unsigned zeros = 0;
  for (size_t i = 0; i < n; ++i) {
    if (zeros >= 2 && (p[i] == 1 || p[i] == 3)) o.push_back(3);
    zeros = p[i] ? 0 : zeros + 1;
    o.push_back(p[i]);
  }
}
#endif
static void Packets(VideoFrame::Codec codec, unsigned ranges, uint64_t max) {
  g_ranges = ranges;
  g_error = false;
  uint64_t n = vf_range(1, max), at = 0;
  g_len = n;
  for (unsigned i = 0; i < ranges; ++i) {
    uint64_t l = vf_range(1, max);
    REQUIRES(l <= n - at);
    g_range[i] = Part{at, l};
    at += l;
  }
#ifdef VF_NATIVE
  if (ranges) {  // append an index that lists the ranges
    REQUIRES(at == n && n >= 2 + 4 * ranges && at >= 2 + 4 * ranges);
    g_len = n += 2 + 4 * ranges;
  }
#endif
  VideoFrame f(12345, codec);
  ENSURES(f.Init(n) && f.SetBufferLength(n), "frame");
  uint8_t* d = f.buffer().data.get();
#ifdef VF_NATIVE
  for (uint64_t i = 0; i < n; ++i) d[i] = 0;
  if (ranges) {
    uint8_t* x = d + at;
    *x++ = (uint8_t)(0xd8 | (ranges - 1));
    for (unsigned i = 0; i < ranges; ++i)
      for (int j = 0; j < 4; ++j) *x++ = (uint8_t)(g_range[i].length >> (8 * j));
    *x = (uint8_t)(0xd8 | (ranges - 1));
  }
#endif
  g_frame = d;
  npieces = 0;
  Bytes out;
  out.push_back(7);
  ENSURES(Webm2Pes::WritePesPacket(f, &out), "written");
  if (!ranges) g_range[0] = Part{0, n};
  unsigned k = 0;
#ifdef VF_NATIVE
  Bytes want;
#endif
  for (unsigned i = 0; i < (ranges ? ranges : 1); ++i) {
    uint64_t len = g_range[i].length, done = len < 32768 ? len : 32768;
    uint8_t* p = d + g_range[i].offset;
#ifdef VF_NATIVE
    libwebm::PesHeader h;
    h.optional_header.SetPtsBits(NanosecondsTo90KhzTicks(12345));
    h.packet_length = (uint16_t)(done + 10);
    h.Write(true, &want);
    BCMVHeader b((uint32_t)len);
    b.Write(&want);
    Put(want, p, done);
    for (; done < len;) {
      uint64_t c = len - done < 32768 ? len - done : 32768;
      h.packet_length = (uint16_t)c;
      h.Write(false, &want);
      Put(want, p + done, c);
      done += c;
    }
#else
    ENSURES(k + 2 < npieces && pieces[k].kind == 1 &&
                pieces[k].n == done + 10,
            "a header with time and the packet's length");
    ENSURES(pieces[k + 1].kind == 3 && pieces[k + 1].n == len,
            "a frame header with the frame's length");
    ENSURES(pieces[k + 2].kind == 0 && pieces[k + 2].p == p &&
                pieces[k + 2].n == done,
            "the first bytes of the frame");
    k += 3;
    for (unsigned j = 0; j < 4 && done < len; ++j) {
      uint64_t c = len - done < 32768 ? len - done : 32768;
      ENSURES(k + 1 < npieces && pieces[k].kind == 2 && pieces[k].n == c,
              "a header without time and the packet's length");
      ENSURES(pieces[k + 1].kind == 0 && pieces[k + 1].p == p + done &&
                  pieces[k + 1].n == c,
              "the following bytes of the frame");
      done += c;
      k += 2;
    }
    ENSURES(done == len, "every byte of the frame");
#endif
  }
#ifdef VF_NATIVE
  ENSURES(out == want, "the packets of the frame");
#else
  ENSURES(npieces == k, "nothing else");
  ENSURES(out.empty(), "earlier packets are gone");
#endif
}
//@ proof pes_packets_vp8 contracts=pk unwind=17 kind=bounded bound="frames of up to 98304 bytes" functions=Webm2Pes::WritePesPacket
VF_PROOF(pes_packets_vp8) { Packets(VideoFrame::kVP8, 0, 3 * 32768); }
//@ proof pes_packets_vp9 contracts=pk unwind=17 kind=bounded bound="frames of up to 98304 bytes" functions=Webm2Pes::WritePesPacket
VF_PROOF(pes_packets_vp9) { Packets(VideoFrame::kVP9, 0, 3 * 32768); }
//@ proof pes_packets_super contracts=pk unwind=17 unwind_cap=40 kind=bounded bound="2 frames of up to 40000 bytes" functions=Webm2Pes::WritePesPacket
VF_PROOF(pes_packets_super) { Packets(VideoFrame::kVP9, 2, 40000); }
//@ proof pes_packets_bad contracts=pk unwind=17 functions=Webm2Pes::WritePesPacket
VF_PROOF(pes_packets_bad) {
  VideoFrame f(1, VideoFrame::kVP9);
  Bytes out;
  ENSURES(!Webm2Pes::WritePesPacket(f, &out), "an empty frame is refused");
  ENSURES(f.Init(5) && !Webm2Pes::WritePesPacket(f, &out),
          "an empty frame is refused");
  ENSURES(f.SetBufferLength(5), "frame");
  g_error = true;
  g_frame = f.buffer().data.get();
  g_len = 5;
#ifdef VF_NATIVE
  f.buffer().data.get()[4] = 0xc7;
#endif
  ENSURES(!Webm2Pes::WritePesPacket(f, &out), "a bad superframe is refused");
}
// ---- escaping is undone by the PES parser ----------------------------------------------
//@ proof pes_unescape contracts=room kind=bounded bound="10 bytes" unwind=24 unwind_cap=40 functions=VpxPesParser::RemoveStartCodeEmulationPreventionBytes,CopyAndEscapeStartCodes
VF_PROOF(pes_unescape) {
  uint8_t d[10];
  for (unsigned i = 0; i < 10; ++i) d[i] = vf_nondet_u8();
  VpxPesParser p;
  p.pes_file_data_.reserve(20);
  CopyAndEscapeStartCodes(d, 10, &p.pes_file_data_);
  Bytes got;
  got.reserve(20);
  size_t used = 0;
  ENSURES(p.RemoveStartCodeEmulationPreventionBytes(p.pes_file_data_.data(), 10,
                                                    &got, &used),
          "accepted");
  ENSURES(got.size() == 10 && used == p.pes_file_data_.size(), "all of it");
  for (unsigned i = 0; i < 10; ++i) ENSURES(got[i] == d[i], "the same bytes");
}
// ---- TS packets -------------------------------------------------------------------------
static const unsigned kPackets = 3;
static uint8_t ts[kPackets * 188];
static unsigned nts, ts_fail;
static unsigned ts_long, ts_count;  // checked packet by packet
static size_t TsWrite(const uint8_t* p, size_t total) {
  ENSURES(nts + total <= sizeof(ts), "bounded");
  if (nts / 188 == ts_fail) return 0;
  if (ts_long) {
    unsigned at = ts_count * 184;
    bool ok = total == 188 && p[0] == 0x47 &&
              p[1] == (ts_count == 0 ? 0x40 : 0) && p[2] == 0x20 &&
              p[3] == (0x10 | ((ts_long + ts_count) & 15));
    ENSURES(ok, "sync, unit start, PID, adaptation, continuity");
    bool same = true;
    for (unsigned i = 0; i < 184; ++i)
      if (p[4 + i] != (uint8_t)((at + i) * 5)) same = false;
    ENSURES(same, "payload in order");
    ++ts_count;
    return total;
  }
  for (size_t i = 0; i < total; ++i) ts[nts + i] = p[i];
  nts += total;
  return total;
}
#ifdef VF_NATIVE
static ssize_t CookieWrite(void*, const char* b, size_t n) {
  return (ssize_t)TsWrite((const uint8_t*)b, n);
}
static FILE* TsFile() {
  cookie_io_functions_t f = {nullptr, CookieWrite, nullptr, nullptr};
  FILE* p = fopencookie(nullptr, "w", f);
  setvbuf(p, nullptr, _IONBF, 0);
  return p;
}
#else
static char vf_file[512];
static FILE* TsFile() { return (FILE*)vf_file; }
static size_t FwriteC(const void* b, size_t s, size_t n, FILE* f) {
  ENSURES(f == TsFile() && vf_r_ok(b, s * n), "writes the packet");
  return s ? TsWrite((const uint8_t*)b, s * n) / s : 0;
}
static int FcloseC(FILE*) { return 0; }
VF_CONTRACT(ts, fwrite, &fwrite, &FwriteC)
VF_CONTRACT(ts, fclose, &fclose, &FcloseC)
#endif
// `earlier`: one-byte PES packets sent before
static void TsOf(unsigned n, unsigned fail, unsigned earlier = 1) {
  VpxPes2Ts t("", "");
  t.output_file_.reset(TsFile());
  PacketReceiverInterface& sink = t;
  ts_fail = 99;
  for (unsigned i = 0; i < earlier; ++i) {
    Bytes one(1);
    nts = 0;
    ENSURES(sink.ReceivePacket(one), "accepted");
  }
  unsigned cc = earlier;
  Bytes in(n);
  for (unsigned i = 0; i < n; ++i) in[i] = vf_nondet_u8();
  nts = 0;
  ts_fail = fail;
  bool ok = sink.ReceivePacket(in);
  if (fail < 99) {
    ENSURES(!ok, "a failed write is reported");
    return;
  }
  ENSURES(ok, "accepted");
  unsigned at = 0, k = 0;
  for (; k < kPackets && at < n; ++k) {
    const uint8_t* p = ts + 188 * k;
    unsigned left = n - at, pay = left >= 184 ? 184 : left == 183 ? 182 : left;
    ENSURES(p[0] == 0x47 && p[1] == (k == 0 ? 0x40 : 0) && p[2] == 0x20 &&
                p[3] == ((pay < 184 ? 0x30 : 0x10) | ((cc + k) & 15)),
            "sync, unit start, PID, adaptation, continuity");
    unsigned pad = 184 - pay;
    if (pad) {
      ENSURES(p[4] == pad - 1 && p[5] == 0, "adaptation field");
      for (unsigned i = 2; i < pad; ++i)
        ENSURES(p[4 + i] == 0xff, "stuffing");
    }
    for (unsigned i = 0; i < pay; ++i)
      ENSURES(p[4 + pad + i] == in[at + i], "payload in order");
    at += pay;
  }
  ENSURES(at == n && nts == 188 * k, "every byte, in whole packets");
}
//@ proof ts_small contracts=ts kind=bounded bound="PES data of 1, 20 and 181 bytes" unwind=190 unwind_cap=700 flags="--max-field-sensitivity-array-size 600" functions=VpxPes2Ts::ReceivePacket,TsHeader::Write
VF_PROOF(ts_small) {
  TsOf(1, 99);
  TsOf(20, 99);
  TsOf(181, 99);
}
//@ proof ts_edge contracts=ts kind=bounded bound="PES data of 182 to 185 bytes" unwind=190 unwind_cap=700 flags="--max-field-sensitivity-array-size 600" functions=VpxPes2Ts::ReceivePacket,TsHeader::Write
VF_PROOF(ts_edge) {
  for (unsigned n = 182; n <= 185; ++n) TsOf(n, 99);
}
//@ proof ts_three contracts=ts kind=bounded bound="PES data of 367 and 400 bytes" unwind=410 unwind_cap=700 flags="--max-field-sensitivity-array-size 600" functions=VpxPes2Ts::ReceivePacket,TsHeader::Write
VF_PROOF(ts_three) {
  TsOf(367, 99);
  TsOf(400, 99);
}
//@ proof ts_fail contracts=ts kind=bounded bound="PES data of 300 bytes" unwind=410 unwind_cap=700 flags="--max-field-sensitivity-array-size 600" functions=VpxPes2Ts::ReceivePacket
VF_PROOF(ts_fail) {
  TsOf(300, 0);
  TsOf(300, 1);
}
//@ proof ts_wrap contracts=ts kind=bounded bound="18 TS packets" unwind=190 unwind_cap=700 flags="--max-field-sensitivity-array-size 600" functions=VpxPes2Ts::ReceivePacket
VF_PROOF(ts_wrap) { TsOf(3, 99, 17); }
//@ proof ts_long contracts=ts kind=bounded bound="18 TS packets of one PES buffer after 15 others" unwind=3330 unwind_cap=3330 flags="--max-field-sensitivity-array-size 3330" functions=VpxPes2Ts::ReceivePacket,TsHeader::Write
VF_PROOF(ts_long) {
  const unsigned n = 18 * 184;
  VpxPes2Ts t("", "");
  t.output_file_.reset(TsFile());
  PacketReceiverInterface& sink = t;
  ts_fail = 99;
  for (unsigned i = 0; i < 15; ++i) {
    Bytes one(1);
    nts = 0;
    ENSURES(sink.ReceivePacket(one), "accepted");
  }
  Bytes in(n);
  for (unsigned i = 0; i < n; ++i) in[i] = (uint8_t)(i * 5);
  ts_long = 15;
  ENSURES(sink.ReceivePacket(in), "accepted");
  ENSURES(ts_count == 18, "every byte, in whole packets");
}
