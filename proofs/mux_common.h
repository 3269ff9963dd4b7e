// Helpers shared by the muxer proofs.
#ifndef MUX_COMMON_H_
#define MUX_COMMON_H_
#include "log_writer.h"
#include "slot.h"
#include <cfloat>
#include <new>
using namespace mkvmuxer;

extern "C" __attribute__((used)) int vf_model_rand_r(unsigned*) {
#ifdef VF_NATIVE
  return 4;
#else
  return (int)(vf_havoc_u32() & 0x7fffffff);
#endif
}
static uint64_t Bits(unsigned b) {  // any value below 2^b
  return vf_nondet_u64() & ((1ull << b) - 1);
}
// objects live in typed static storage and are never destroyed
template <class T>
static Slot<T> vf_pool[4];
template <class T>
static unsigned vf_pool_n = 0;
template <class T, class... A>
static T* Make(A... a) {
  return new (&vf_pool<T>[vf_pool_n<T>++].v) T(a...);
}
#endif
