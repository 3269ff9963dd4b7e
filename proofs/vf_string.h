// Abstract NUL-terminated strings: any length up to a limit, any contents.
// The verifier keeps a registry  object -> length  and strlen() of a
// registered string is its recorded length (models strlen's definition without
// unrolling it); other strings (literals) are registered by vf_literal.  The
// native replay uses real strings.
#ifndef VF_STRING_H_
#define VF_STRING_H_
#include "vf.h"
struct VfStrings {
  enum { kMax = 10 };
  const char* p[kMax];
  uint64_t n[kMax];
  unsigned count = 0;
};
static VfStrings vf_strs;
static char* vf_string_len(uint64_t len) {
  char* s = (char*)vf_alloc(len + 1);
#ifdef VF_NATIVE
  for (uint64_t i = 0; i < len; ++i) s[i] = (char)('a' + i % 23);
#endif
  s[len] = 0;
  vf_strs.p[vf_strs.count] = s;
  vf_strs.n[vf_strs.count] = len;
  ++vf_strs.count;
  return s;
}
static void vf_literal(const char* s, uint64_t len) {
  vf_strs.p[vf_strs.count] = s;
  vf_strs.n[vf_strs.count] = len;
  ++vf_strs.count;
}
static char* vf_string(uint64_t lo, uint64_t hi) {
#ifdef VF_NATIVE
  if (hi > (1u << 24)) hi = 1u << 24;
#endif
  return vf_string_len(vf_range(lo, hi));
}
// any length below 2^bits
static char* vf_string_bits(unsigned bits) {
  return vf_string_len(vf_nondet_u64() & ((1ull << bits) - 1));
}
static char* vf_opt_string(unsigned bits) {
  return vf_nondet_bool() ? vf_string_bits(bits) : nullptr;
}
extern "C" __attribute__((used, noinline)) size_t vf_model_strlen(
    const char* s) {
#ifdef VF_NATIVE
  return strlen(s);
#else
  for (unsigned i = 0; i < VfStrings::kMax; ++i)
    if (i < vf_strs.count && vf_strs.p[i] == s) return vf_strs.n[i];
  vf_assert(false, "strlen of a string the harness does not know");
  return 0;
#endif
}
#endif
