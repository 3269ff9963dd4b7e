//@ file property=C06 src=wp unwind=12
// webm_parser: IDs, sizes and values, however the stream delivers the bytes.
#include "wp_reader.h"
#include "src/bool_parser.h"
#include "src/byte_parser.h"
#include "src/date_parser.h"
#include "src/float_parser.h"
#include "src/id_parser.h"
#include "src/int_parser.h"
#include "src/size_parser.h"
#include "src/skip_parser.h"
#include "src/var_int_parser.h"
using namespace webm;
static const unsigned kStops = 3;
// the harness's stop code must differ from the parsers' own results
static void Distinct(int32_t code) {
  REQUIRES(code != Status::kInvalidElementId &&
           code != Status::kInvalidElementSize &&
           code != Status::kInvalidElementValue);
}
//@ proof id kind=bounded bound="3 interruptions" functions=IdParser::Feed
VF_PROOF(id) {
  Stream<4> s;
  s.Init();
  Distinct(s.stop_code);
  IdParser p;
  Status st = FeedAll(p, s, kStops);
  unsigned l = MarkerLen(s.data[0]);
  if (l > 4) {
    ENSURES(st.code == Status::kInvalidElementId && s.pos == 1, "malformed ID");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == l, "exactly the ID is consumed");
  ENSURES((uint64_t)p.id() == Be(s.data, 0, l), "ID with its marker");
}
//@ proof size kind=bounded bound="3 interruptions" functions=SizeParser::Feed,SizeParser::size,VarIntParser::Feed
VF_PROOF(size) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  SizeParser p;
  Status st = FeedAll(p, s, kStops);
  unsigned l = MarkerLen(s.data[0]);
  if (l > 8) {
    ENSURES(st.code == Status::kInvalidElementSize && s.pos == 1,
            "malformed size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == l, "exactly the size is consumed");
  uint64_t v = Be(s.data, 0, l) & ~(1ull << (7 * l));
  ENSURES(p.size() == (v == (1ull << (7 * l)) - 1 ? kUnknownElementSize : v),
          "size, all ones meaning unknown");
}
//@ proof varint kind=bounded bound="3 interruptions" functions=VarIntParser::Feed
VF_PROOF(varint) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  VarIntParser p;
  Status st = FeedAll(p, s, kStops);
  unsigned l = MarkerLen(s.data[0]);
  if (l > 8) {
    ENSURES(st.code == Status::kInvalidElementValue && s.pos == 1,
            "malformed integer");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == l, "exactly the integer is consumed");
  ENSURES(p.value() == (Be(s.data, 0, l) & ~(1ull << (7 * l))) &&
              p.encoded_length() == (int)l,
          "value without the marker, and length");
}
// runs a value parser on an element of any size; `size` 0..8 afterwards
template <class P, unsigned N>
static Status Value(P& p, Stream<N>& s, uint64_t size) {
  Status st = p.Init(Meta(size), size == kUnknownElementSize ? vf_nondet_u64() : size);
  if (!st.completed_ok()) return st;
  ENSURES(size <= N, "impossible sizes are refused");
  REQUIRES(size <= N);
  return FeedAll(p, s, kStops);
}
//@ proof uint kind=bounded bound="3 interruptions" functions=IntParser::Init,IntParser::Feed
VF_PROOF(uint) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_u64(), def = vf_nondet_u64();
  UnsignedIntParser p(def);
  Status st = Value(p, s, size);
  if (size > 8) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the value is consumed");
  ENSURES(p.value() == (size ? Be(s.data, 0, (unsigned)size) : def),
          "big-endian value, default when empty");
}
//@ proof sint kind=bounded bound="3 interruptions" functions=IntParser::Init,IntParser::Feed
VF_PROOF(sint) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_u64();
  int64_t def = vf_nondet_i64();
  SignedIntParser p(def);
  Status st = Value(p, s, size);
  if (size > 8) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the value is consumed");
  int64_t want = def;
  if (size) {
    unsigned sh = 64 - 8 * (unsigned)size;
    want = (int64_t)(Be(s.data, 0, (unsigned)size) << sh) >> sh;
  }
  ENSURES(p.value() == want, "sign-extended value, default when empty");
}
//@ proof boolean kind=bounded bound="3 interruptions" functions=BoolParser::Init,BoolParser::Feed
VF_PROOF(boolean) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_u64();
  bool def = vf_nondet_bool();
  BoolParser p(def);
  Status st = Value(p, s, size);
  if (size > 8) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  uint64_t v = Be(s.data, 0, (unsigned)size);
  if (v > 1) {
    ENSURES(st.code == Status::kInvalidElementValue, "neither true nor false");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the value is consumed");
  ENSURES(p.value() == (size ? v == 1 : def), "value, default when empty");
}
//@ proof date kind=bounded bound="3 interruptions" functions=DateParser::Init,DateParser::Feed
VF_PROOF(date) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_u64();
  int64_t def = vf_nondet_i64();
  DateParser p(def);
  Status st = Value(p, s, size);
  if (size != 8 && size != 0) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the value is consumed");
  ENSURES(p.value() == (size ? (int64_t)Be(s.data, 0, 8) : def),
          "value, default when empty");
}
//@ proof floating kind=bounded bound="3 interruptions" functions=FloatParser::Init,FloatParser::Feed
VF_PROOF(floating) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_u64();
  double def = vf_nondet_f64();
  FloatParser p(def);
  Status st = Value(p, s, size);
  if (size != 8 && size != 4 && size != 0) {
    ENSURES(st.code == Status::kInvalidElementSize, "impossible size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the value is consumed");
  double want = def;
  if (size == 4) {
    uint32_t b = (uint32_t)Be(s.data, 0, 4);
    float f;
    memcpy(&f, &b, 4);
    want = f;
  } else if (size == 8) {
    uint64_t b = Be(s.data, 0, 8);
    memcpy(&want, &b, 8);
  }
  double got = p.value();
  ENSURES(got == want || (got != got && want != want), "IEEE-754 value");
}
//@ proof skip kind=bounded bound="3 interruptions, 8 bytes" functions=SkipParser::Init,SkipParser::Feed
VF_PROOF(skip) {
  Stream<8> s;
  s.Init();
  Distinct(s.stop_code);
  uint64_t size = vf_nondet_bool() ? kUnknownElementSize : vf_range(0, 8);
  SkipParser p;
  Status st = Value(p, s, size);
  if (size == kUnknownElementSize) {
    ENSURES(st.code == Status::kInvalidElementSize, "unknown size");
    return;
  }
  ENSURES(st.completed_ok() && s.pos == size, "exactly the element is skipped");
}
// ---- strings and binary data -------------------------------------------------
template <unsigned N>
static void Binary() {
  Stream<N + 1> s;
  s.Init();
  Distinct(s.stop_code);
  BinaryParser p;
  Status st = Value(p, s, N);
  ENSURES(st.completed_ok() && s.pos == N, "exactly the element is read");
  ENSURES(p.value().size() == N, "all bytes");
  for (unsigned i = 0; i < N; ++i)
    ENSURES(p.value()[i] == s.data[i], "bytes of the element");
}
template <unsigned N>
static void Text() {
  Stream<N + 1> s;
  s.Init();
  Distinct(s.stop_code);
  StringParser p;
  Status st = Value(p, s, N);
  ENSURES(st.completed_ok() && s.pos == N, "exactly the element is read");
  unsigned len = 0;
  for (unsigned i = 0; i < N; ++i)
    if (s.data[i]) len = i + 1;
  ENSURES(p.value().size() == len, "all bytes but trailing NULs");
  for (unsigned i = 0; i < N; ++i)
    if (i < len)
      ENSURES((uint8_t)p.value()[i] == s.data[i], "bytes of the element");
}
//@ proof binary0 functions=ByteParser::Init,ByteParser::Feed
VF_PROOF(binary0) {
  Binary<0>();
  BinaryParser p;
  ENSURES(p.Init(Meta(kUnknownElementSize), vf_nondet_u64()).code ==
              Status::kInvalidElementSize,
          "unknown size is refused");
}
//@ proof binary4 kind=bounded bound="4 bytes, 3 interruptions" cdefine=VF_MEM_BYTEWISE functions=ByteParser::Init,ByteParser::Feed
VF_PROOF(binary4) { Binary<4>(); }
//@ proof text0 functions=ByteParser::Init,ByteParser::Feed
VF_PROOF(text0) { Text<0>(); }
//@ proof text3 kind=bounded bound="3 bytes, 3 interruptions" cdefine=VF_MEM_BYTEWISE functions=ByteParser::Init,ByteParser::Feed
VF_PROOF(text3) { Text<3>(); }
