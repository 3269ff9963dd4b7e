// EBML (RFC 8794) encoding rules, written from the specification: the oracle
// for the muxer's encoders and the parsers' decoders.
#ifndef EBML_SPEC_H_
#define EBML_SPEC_H_
#include "vf.h"
namespace spec {
// bytes needed for a plain big-endian unsigned integer (at least one)
static inline unsigned UIntLen(uint64_t v) {
  unsigned n = 1;
  for (unsigned k = 1; k < 8; ++k)
    if (v >> (8 * k)) n = k + 1;
  return n;
}
// bytes needed for a two's complement big-endian integer (at least one)
static inline unsigned IntLen(int64_t v) {
  unsigned n = 8;
  for (unsigned k = 7; k >= 1; --k)
    if (v >= -(int64_t)(1ull << (8 * k - 1)) &&
        v <= (int64_t)((1ull << (8 * k - 1)) - 1))
      n = k;
  return n;
}
// the all-ones pattern of each width is reserved (unknown size)
static const uint64_t kMaxVarInt = (1ull << 56) - 2;
static inline unsigned VarIntLen(uint64_t v) {  // v <= kMaxVarInt
  unsigned n = 8;
  for (unsigned k = 7; k >= 1; --k)
    if (v <= (1ull << (7 * k)) - 2) n = k;
  return n;
}
static inline uint64_t VarIntBits(uint64_t v, unsigned len) {
  return v | (1ull << (7 * len));
}
// i-th byte (0 = first) of the big-endian `len`-byte image of v
static inline uint8_t BeByte(uint64_t v, unsigned len, uint64_t i) {
  return i < len ? (uint8_t)(v >> (8 * (len - 1 - i))) : 0;
}
// i-th byte of the element header  ID | size
static inline unsigned HeaderLen(uint64_t id, uint64_t size) {
  return UIntLen(id) + VarIntLen(size);
}
static inline uint8_t HeaderByte(uint64_t id, uint64_t size, uint64_t i) {
  unsigned il = UIntLen(id);
  if (i < il) return BeByte(id, il, i);
  unsigned sl = VarIntLen(size);
  return BeByte(VarIntBits(size, sl), sl, i - il);
}
}  // namespace spec
#endif
