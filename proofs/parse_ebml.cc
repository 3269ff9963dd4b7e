//@ file property=C04 src=mkv unwind=12
// mkvparser's decoding primitives against the EBML rules.
#include "ghost_reader.h"
#include <climits>
#include <cmath>
using namespace mkvparser;

static unsigned MarkerLen(uint8_t b) {  // 1..8, 9 if no marker
  unsigned l = 9;
  for (unsigned k = 8; k >= 1; --k)
    if (b & (0x80 >> (k - 1))) l = k;
  return l;
}
template <unsigned N>
static uint64_t Be(const uint8_t (&d)[N], unsigned off, unsigned len) {
  uint64_t v = 0;
  for (unsigned i = 0; i < N; ++i)
    if (i >= off && i < off + len) v = v << 8 | d[i];
  return v;
}
//@ proof read_uint functions=ReadUInt
VF_PROOF(read_uint) {
  GR<9> r;
  r.Init();
  long len = vf_nondet_i64();
  long long v = ReadUInt(&r, r.base, len);
  unsigned l = MarkerLen(r.data[0]);
  if (r.n == 0 || l > 8 || l > r.n) {
    ENSURES(v < 0, "a missing or malformed value is reported");
    return;
  }
  ENSURES(v >= 0 && len == (long)l, "length from the marker bit");
  ENSURES((uint64_t)v == (Be(r.data, 0, l) & ~(1ull << (7 * l))),
          "value without the marker bit");
  vf_cover(l == 8, "8-byte value");
  ENSURES(ReadUInt(nullptr, r.base, len) < 0, "null reader");
  ENSURES(ReadUInt(&r, -1 - (vf_nondet_i64() & INT64_MAX), len) < 0,
          "negative position");
}
//@ proof read_id functions=ReadID
VF_PROOF(read_id) {
  GR<5> r;
  r.Init();
  long len = -7;
  long long v = ReadID(&r, r.base, len);
  unsigned l = MarkerLen(r.data[0]);
  if (r.n == 0 || l > 4 || l > r.n) {
    ENSURES(v < 0, "a missing or malformed ID is reported");
    return;
  }
  ENSURES(v > 0 && len == (long)l, "length from the marker bit");
  ENSURES((uint64_t)v == Be(r.data, 0, l), "ID with its marker bit");
  ENSURES(ReadID(nullptr, r.base, len) < 0, "null reader");
  ENSURES(ReadID(&r, -1 - (vf_nondet_i64() & INT64_MAX), len) < 0,
          "negative position");
}
//@ proof get_uint_length functions=GetUIntLength
VF_PROOF(get_uint_length) {
  GR<2> r;
  r.Init();
  r.len_status = vf_nondet_bool() ? -1 : 0;
  long len = 0;
  long long v = GetUIntLength(&r, r.base, len);
  if (r.len_status) {
    ENSURES(v < 0, "unknown length is reported");
    return;
  }
  if (r.n == 0) {
    ENSURES(v == r.base && len == 1, "asks for the next byte");
    return;
  }
  unsigned l = MarkerLen(r.data[0]);
  if (l > 8)
    ENSURES(v < 0, "malformed value is reported");
  else
    ENSURES(v == 0 && len == (long)l, "length from the marker bit");
}
//@ proof unserialize_uint functions=UnserializeUInt
VF_PROOF(unserialize_uint) {
  GR<9> r;
  r.Init();
  long long size = vf_nondet_i64();
  long long v = UnserializeUInt(&r, r.base, size);
  if (size < 1 || size > 8 || size > (long long)r.n) {
    ENSURES(v < 0, "a bad size or missing byte is reported");
    return;
  }
  ENSURES((uint64_t)v == Be(r.data, 0, (unsigned)size), "big-endian value");
  ENSURES(UnserializeUInt(nullptr, r.base, size) < 0, "null reader");
}
//@ proof unserialize_int functions=UnserializeInt
VF_PROOF(unserialize_int) {
  GR<9> r;
  r.Init();
  long long size = vf_nondet_i64(), v = 0;
  long s = UnserializeInt(&r, r.base, size, v);
  if (size < 1 || size > 8 || size > (long long)r.n) {
    ENSURES(s < 0, "a bad size or missing byte is reported");
    return;
  }
  unsigned sh = 64 - 8 * (unsigned)size;
  ENSURES(s == 0 && v == (int64_t)(Be(r.data, 0, (unsigned)size) << sh) >> sh,
          "sign-extended big-endian value");
  ENSURES(UnserializeInt(nullptr, r.base, size, v) < 0, "null reader");
}
//@ proof unserialize_float functions=UnserializeFloat
VF_PROOF(unserialize_float) {
  GR<9> r;
  r.Init();
  long long size = vf_nondet_i64();
  double v = 0;
  long s = UnserializeFloat(&r, r.base, size, v);
  if ((size != 4 && size != 8) || size > (long long)r.n) {
    ENSURES(s < 0, "a bad size or missing byte is reported");
    return;
  }
  uint64_t bits = Be(r.data, 0, (unsigned)size);
  double want;
  if (size == 4) {
    uint32_t b = (uint32_t)bits;
    float f;
    memcpy(&f, &b, 4);
    want = f;
  } else {
    memcpy(&want, &bits, 8);
  }
  if (want != want || want - want != 0)
    ENSURES(s < 0, "infinities and NaNs are refused");
  else
    ENSURES(s == 0 && v == want, "IEEE-754 value");
}
// a reader whose contents are one object of any size
struct BigReader final : IMkvReader {
  const uint8_t* d;
  long long n;
  int err;
  int Read(long long pos, long len, unsigned char* buf) override {
    ENSURES(len >= 0 && vf_w_ok(buf, (uint64_t)len),
            "the buffer passed to Read holds the bytes asked for");
    if (pos < 0 || len < 0 || pos > n || len > n - pos) return err;
    if (len) memcpy(buf, d + pos, (size_t)len);
    return 0;
  }
  int Length(long long* t, long long* a) override {
    if (t) *t = n;
    if (a) *a = n;
    return 0;
  }
};
//@ proof unserialize_string functions=UnserializeString,SafeArrayAlloc
VF_PROOF(unserialize_string) {
  BigReader r;
  r.n = (long long)vf_range(0, 30000000);
  r.d = (uint8_t*)vf_alloc((uint64_t)r.n);
  r.err = vf_nondet_i32();
  REQUIRES(r.err != 0);
  long long pos = vf_nondet_i64(), size = vf_nondet_i64();
  char* s = vf_nondet_bool() ? new char[3] : nullptr;
  long st = UnserializeString(&r, pos, size, s);
  bool readable = size >= 0 && size <= 20000000 && pos >= 0 && pos <= r.n &&
                  size <= r.n - pos;
  if (!readable) ENSURES(st != 0, "a bad size or missing byte is reported");
  if (st) {
    ENSURES(s == nullptr, "no string on failure");
    return;
  }
  ENSURES(s[size] == 0, "NUL-terminated");
  uint64_t i = vf_nondet_u64();
  if (i < (uint64_t)size)
    ENSURES((uint8_t)s[i] == r.d[pos + i], "the bytes of the string");
  vf_cover(size > 100, "long string");
}
//@ proof element_header functions=ParseElementHeader,ReadID,ReadUInt
VF_PROOF(element_header) {
  GR<13> r;
  r.Init();
  long long pos = r.base, stop = vf_nondet_i64(), id = 0, size = 0;
  long st = ParseElementHeader(&r, pos, stop, id, size);
  unsigned il = MarkerLen(r.data[0]);
  bool ok = r.n > 0 && il <= 4 && il < r.n && (stop < 0 || r.base + il < stop);
  unsigned sl = 0;
  if (ok) {
    for (unsigned i = 0; i < 5; ++i)
      if (i == il) sl = MarkerLen(r.data[i]);
    ok = sl <= 8 && il + sl <= r.n && (stop < 0 || r.base + il + sl <= stop);
  }
  ENSURES((st == 0) == ok, "exactly the well-formed headers are accepted");
  if (st) {
    ENSURES(st < 0, "errors are negative");
    return;
  }
  ENSURES(pos == r.base + il + sl, "position after the header");
  ENSURES((uint64_t)id == Be(r.data, 0, il), "element ID");
  ENSURES((uint64_t)size == (Be(r.data, il, sl) & ~(1ull << (7 * sl))),
          "element size");
  vf_cover(il == 4 && sl == 8, "longest header");
}
// ---- decoding inverts encoding ----------------------------------------------
//@ proof header_roundtrip functions=ParseElementHeader,ReadID,ReadUInt
VF_PROOF(header_roundtrip) {
  GR<13> r;
  r.Init();
  r.n = 13;
  uint64_t id = vf_nondet_u64(), size = vf_nondet_u64();
  unsigned il = spec::UIntLen(id);
  REQUIRES(il <= 4 && MarkerLen((uint8_t)(id >> (8 * (il - 1)))) == il);
  REQUIRES(size <= spec::kMaxVarInt);
  unsigned hl = spec::HeaderLen(id, size);
  for (unsigned i = 0; i < 12; ++i)
    if (i < hl) r.data[i] = spec::HeaderByte(id, size, i);
  long long pos = r.base, pid = 0, psize = 0;
  long st = ParseElementHeader(&r, pos, -1, pid, psize);
  ENSURES(st == 0 && (uint64_t)pid == id && (uint64_t)psize == size &&
              pos == r.base + hl,
          "an encoded header decodes to itself");
}
//@ proof uint_roundtrip functions=UnserializeUInt solver=cadical
VF_PROOF(uint_roundtrip) {
  uint64_t v = vf_nondet_u64();
  REQUIRES(v <= INT64_MAX);
  const unsigned want = spec::UIntLen(v);
  for (unsigned l = 1; l <= 8; ++l) {
    if (want != l) continue;
    GR<8> r;
    r.InitFixed(0);
    for (unsigned i = 0; i < 8; ++i) r.data[i] = spec::BeByte(v, l, i);
    ENSURES((uint64_t)UnserializeUInt(&r, 0, l) == v,
            "an encoded unsigned value decodes to itself");
  }
}
//@ proof int_roundtrip functions=UnserializeInt solver=cadical
VF_PROOF(int_roundtrip) {
  uint64_t v = vf_nondet_u64();
  const unsigned want = spec::IntLen((int64_t)v);
  for (unsigned l = 1; l <= 8; ++l) {
    if (want != l) continue;
    GR<8> r;
    r.InitFixed(0);
    for (unsigned i = 0; i < 8; ++i) r.data[i] = spec::BeByte(v, l, i);
    long long s = 0;
    ENSURES(UnserializeInt(&r, 0, l, s) == 0 && s == (int64_t)v,
            "an encoded signed value decodes to itself");
  }
}
