// Native replay runtime: feeds the recorded nondeterministic values, in order.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "vf.h"
static std::vector<uint64_t> vals;
static size_t pos = 0;
static uint64_t next() { return pos < vals.size() ? vals[pos++] : (pos++, 0); }
extern "C" {
void vf_assume(bool c) {
  if (!c) {
    fprintf(stderr, "REPLAY: assumption not met (input diverged)\n");
    _Exit(77);
  }
}
void vf_assert(bool c, const char* m) {
  if (!c) {
    fprintf(stderr, "REPLAY: FAILED: %s\n", m);
    fflush(stderr);
    _Exit(1);
  }
}
void vf_cover(bool, const char*) {}
bool vf_nondet_bool() { return next() & 1; }
uint8_t vf_nondet_u8() { return (uint8_t)next(); }
uint16_t vf_nondet_u16() { return (uint16_t)next(); }
uint32_t vf_nondet_u32() { return (uint32_t)next(); }
uint64_t vf_nondet_u64() { return next(); }
float vf_nondet_f32() { uint32_t u = (uint32_t)next(); float f; memcpy(&f, &u, 4); return f; }
double vf_nondet_f64() { uint64_t u = next(); double f; memcpy(&f, &u, 8); return f; }
bool vf_havoc_bool() { return false; }
uint8_t vf_havoc_u8() { return 0; }
uint32_t vf_havoc_u32() { return 0; }
uint64_t vf_havoc_u64() { return 0; }
bool vf_oom() { return false; }
void* vf_alloc(uint64_t n) {
  if (n > (1ull << 30)) { fprintf(stderr, "REPLAY: object too large\n"); _Exit(77); }
  uint8_t* p = (uint8_t*)malloc(n ? n : 1);
  for (uint64_t i = 0; i < n; ++i) p[i] = (uint8_t)(i * 37 + 11 + (i >> 7));
  return p;
}
bool vf_r_ok(const void*, uint64_t) { return true; }
bool vf_w_ok(const void*, uint64_t) { return true; }
bool vf_same_object(const void*, const void*) { return true; }
uint64_t vf_offset(const void*) { return 0; }
uint64_t vf_object_size(const void*) { return ~0ull; }
void vf_havoc_object(void*) {}
void VF_ROOT();
static uint64_t iter = 0, iters = 1;
// repeat the harness on the same inputs with 0, 1, .. n-1
uint64_t vf_native_iterate(uint64_t n) {
  iters = n;
  if (iter == 0) {
    for (uint64_t i = n; i-- > 1;) {
      pid_t p = fork();
      if (p == 0) {
        iter = i;
        return i;
      }
      int st = 0;
      waitpid(p, &st, 0);
      int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1;
      if (rc != 0 && rc != 77) _Exit(rc);
    }
  }
  return iter;
}
}
int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : stdin;
  unsigned long long v;
  while (f && fscanf(f, "%llu", &v) == 1) vals.push_back(v);
  VF_ROOT();
  if (iter) _Exit(0);
  fprintf(stderr, "REPLAY: completed, no failure\n");
  fflush(stderr);
  _Exit(0);
}
