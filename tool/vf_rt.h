/* C runtime for the extracted code: scalar types, bit casts, libc models. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32;
typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
typedef u8 *ptr;
void *malloc(__CPROVER_size_t); void free(void *);
void *memcpy(void *, const void *, __CPROVER_size_t);
void *memmove(void *, const void *, __CPROVER_size_t);
void *memset(void *, int, __CPROVER_size_t);
_Bool nondet__Bool(void); u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void);
u64 nondet_u64(void); ptr nondet_ptr(void); float nondet_float(void); double nondet_double(void);
/* every nondeterministic harness input goes through one of these globals, so
   that the verifier's trace lists them in program order (used by the replay) */
u8 vf_nd_u8; u16 vf_nd_u16; u32 vf_nd_u32; u64 vf_nd_u64; _Bool vf_nd__Bool;
ptr vf_nd_ptr; float vf_nd_float; double vf_nd_double;
_Bool vf_oom_seen;
#ifdef VF_NO_OOM
#define VF_OOM() 0
#else
static inline _Bool VF_OOM(void) { if (nondet__Bool()) { vf_oom_seen = 1; return 1; } return 0; }
#endif
static inline float bc_u32_f32(u32 x) { union { u32 u; float f; } v; v.u = x; return v.f; }
static inline u32 bc_f32_u32(float x) { union { u32 u; float f; } v; v.f = x; return v.u; }
static inline double bc_u64_f64(u64 x) { union { u64 u; double f; } v; v.u = x; return v.f; }
static inline u64 bc_f64_u64(double x) { union { u64 u; double f; } v; v.f = x; return v.u; }
static inline u16 vf_bswap16(u16 x) { return (u16)((x >> 8) | (x << 8)); }
static inline u32 vf_bswap32(u32 x) {
  return ((x & 0xffu) << 24) | ((x & 0xff00u) << 8) | ((x >> 8) & 0xff00u) | (x >> 24); }
static inline u64 vf_bswap64(u64 x) {
  return ((u64)vf_bswap32((u32)x) << 32) | vf_bswap32((u32)(x >> 32)); }
#ifdef VF_MEM_BYTEWISE
static inline ptr vf_memcpy(ptr d, ptr s, u64 n) { for (u64 i = 0; i < n; ++i) d[i] = s[i]; return d; }
static inline ptr vf_memmove(ptr d, ptr s, u64 n) {
  if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
    for (u64 i = n; i > 0; --i) d[i - 1] = s[i - 1];
  } else { for (u64 i = 0; i < n; ++i) d[i] = s[i]; }
  return d; }
static inline ptr vf_memset(ptr d, u32 c, u64 n) { for (u64 i = 0; i < n; ++i) d[i] = (u8)c; return d; }
#else
static inline ptr vf_memcpy(ptr d, ptr s, u64 n) { if (n) memcpy(d, s, n); return d; }
static inline ptr vf_memmove(ptr d, ptr s, u64 n) { if (n) memmove(d, s, n); return d; }
static inline ptr vf_memset(ptr d, u32 c, u64 n) { if (n) memset(d, (int)c, n); return d; }
#endif
static inline s32 vf_memcmp(ptr a, ptr b, u64 n) {
  for (u64 i = 0; i < n; ++i) if (a[i] != b[i]) return (s32)a[i] - (s32)b[i];
  return 0; }
#ifdef VF_STRLEN_UF
/* length of a NUL-terminated string the harness keeps abstract: any fixed
   function of the string's identity */
u64 __CPROVER_uninterpreted_strlen(ptr);
static inline u64 vf_strlen(ptr p) {
  __CPROVER_assert(p != 0, "strlen(NULL)");
  u64 n = __CPROVER_uninterpreted_strlen(p);
  __CPROVER_assume(n <= VF_STRLEN_UF);
  return n; }
#else
static inline u64 vf_strlen(ptr p) { u64 n = 0; while (p[n]) ++n; return n; }
#endif
static inline s32 vf_strcmp(ptr a, ptr b) {
  u64 i = 0;
  while (a[i] && a[i] == b[i]) ++i;
  return (s32)a[i] - (s32)b[i]; }
static inline s32 vf_strncmp(ptr a, ptr b, u64 n) {
  for (u64 i = 0; i < n; ++i) { if (a[i] != b[i]) return (s32)a[i] - (s32)b[i]; if (!a[i]) return 0; }
  return 0; }
static inline ptr vf_memchr(ptr a, u32 c, u64 n) {
  for (u64 i = 0; i < n; ++i) if (a[i] == (u8)c) return a + i;
  return 0; }
static inline ptr vf_strchr(ptr a, u32 c) {
  for (u64 i = 0;; ++i) { if (a[i] == (u8)c) return a + i; if (!a[i]) return 0; } }
