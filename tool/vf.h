// Contract/harness vocabulary (C++ side).  The same text is compiled twice:
//  * by clang to bitcode, linked with /repo's bitcode and extracted to C for
//    the verifier (VF_NATIVE undefined);
//  * natively with sanitizers, linked with /repo's objects, to replay a
//    counterexample against the real code (VF_NATIVE defined).
#ifndef VF_H_
#define VF_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void vf_assume(bool);
void vf_assert(bool, const char*);
void vf_cover(bool, const char*);
// harness inputs: logged by the verifier's trace, reproduced by the replay
bool vf_nondet_bool();
uint8_t vf_nondet_u8();
uint16_t vf_nondet_u16();
uint32_t vf_nondet_u32();
uint64_t vf_nondet_u64();
float vf_nondet_f32();
double vf_nondet_f64();
// unlogged nondeterminism, for contract stubs only (never in a harness: the
// native replay reproduces the logged values only)
bool vf_havoc_bool();
uint8_t vf_havoc_u8();
uint32_t vf_havoc_u32();
uint64_t vf_havoc_u64();
bool vf_oom();  // did a nothrow allocation fail so far?
void* vf_alloc(uint64_t);  // fresh object, any contents
bool vf_r_ok(const void*, uint64_t);
bool vf_w_ok(const void*, uint64_t);
bool vf_same_object(const void*, const void*);
uint64_t vf_offset(const void*);
uint64_t vf_object_size(const void*);
void vf_havoc_object(void*);
#ifdef VF_NATIVE
uint64_t vf_native_iterate(uint64_t);
#endif
}
// One harness per proof obligation group:  VF_PROOF(name) { ... }
#define VF_PROOF(name) extern "C" void vf_proof_##name()
#define REQUIRES(c) vf_assume(c)
#define ENSURES(c, what) vf_assert((c), what)
// Contract of a callee used in place of its body when the proof enables `tag`.
#ifdef VF_NATIVE
#define VF_CONTRACT(tag, id, fptr, stub)
#else
template <class F, class S>
struct vf_pair {
  F f;
  S s;
};
#define VF_CONTRACT(tag, id, fptr, stub)                         \
  extern "C" __attribute__((used)) const vf_pair<decltype(fptr), \
                                                 decltype(stub)> \
      vf_replace__##tag##__##id = {fptr, stub};
#endif
static inline int32_t vf_nondet_i32() { return (int32_t)vf_nondet_u32(); }
static inline int64_t vf_nondet_i64() { return (int64_t)vf_nondet_u64(); }
// nondeterministic value in [lo, hi]
static inline uint64_t vf_range(uint64_t lo, uint64_t hi) {
  uint64_t v = vf_nondet_u64();
  vf_assume(v >= lo && v <= hi);
  return v;
}
#endif
