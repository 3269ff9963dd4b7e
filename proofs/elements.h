// The body of a master element as a script of child elements: any IDs, header
// lengths, sizes and values, the parent's end anywhere in the last child.
// Contracts of the decoding primitives (proved in parse_ebml.cc, C04) answer
// from the script; the native replay lays the same bytes out in a sparse file
// and runs the real primitives.
#ifndef ELEMENTS_H_
#define ELEMENTS_H_
#include "ghost_reader.h"
#include "slot.h"
#include <cfloat>
#include <climits>
#ifdef VF_NATIVE
#include <map>
#endif
namespace el {
using namespace mkvparser;
static const int kMax = 4;
static long long kBase = 1000;  // where the parent's payload starts
enum { kNotFull = -3, kInvalid = -2, kIoError = -1 };
struct Elem {
  long long id, size;
  uint64_t u;    // payload of at most 8 bytes, big endian
  double f;      // payload read as a float
  long idlen, szlen;
  bool bad;      // payload unreadable
  long long start, pay, end;
  unsigned char byte(long long i) const {
    return (unsigned char)(u >> (8 * (size - 1 - i) & 63));
  }
};
struct Script {
  Elem e[kMax];
  int n = 0, k = 0;
  int fail = 1000;        // header number that cannot be read
  int passes = 1;         // how often the parent is read
  long long size = 0;     // of the parent
  bool whole = true;      // the parent ends where the last child ends
  const Elem* cur = nullptr;
  const unsigned char* buf = nullptr;  // where the whole payload was read to
};
static Script s;
struct File;
static File* file;
typedef bool (*Pred)(long long id);
static bool None(long long) { return false; }

// length of the file, where a parser asks for it
static bool g_length_ok = false;
static long long g_total = -1, g_avail = -1;
// bytes outside of any child, where a parser reads them
static int (*g_outside)(long long, long, unsigned char*) = nullptr;
struct File final : IMkvReader {
#ifdef VF_NATIVE
  std::map<long long, unsigned char> at;
  void Uint(long long& pos, uint64_t v, long n) {
    for (long i = n - 1; i >= 0; --i) at[pos++] = (unsigned char)(v >> (8 * i));
  }
  int Read(long long pos, long len, unsigned char* buf) override {
    if (len < 0) return kIoError;
    for (long i = 0; i < len; ++i) {
      auto it = at.find(pos + i);
      if (it == at.end()) return kIoError;
      buf[i] = it->second;
    }
    return 0;
  }
#else
  int Read(long long pos, long len, unsigned char* buf) override {
    if (!s.cur && g_outside) return g_outside(pos, len, buf);
    const Elem& e = *s.cur;
    ENSURES(len >= 0 && vf_w_ok(buf, (uint64_t)len),
            "the buffer passed to Read holds the bytes asked for");
    ENSURES(pos >= e.pay && len <= e.end - pos, "reads the payload only");
    if (pos == e.pay && len == e.size) s.buf = buf;
    if (e.bad) return kIoError;
    long long o = pos - e.pay;
    for (int i = 0; i < 8; ++i)
      if (i < len) buf[i] = e.byte(o + i);
    return 0;
  }
#endif
  int Length(long long* total, long long* avail) override {
    if (!g_length_ok) return -1;
    if (total) *total = g_total;
    if (avail) *avail = g_avail;
    return 0;
  }
};
static File g_file;

// contracts ------------------------------------------------------------
static bool Payload(long long pos, long long size) {
  ENSURES(pos == s.cur->pay && size == s.cur->size,
          "decodes the payload the header announced");
  return !s.cur->bad;
}
static long HeaderC(IMkvReader* r, long long& pos, long long stop,
                    long long& id, long long& size) {
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(stop == kBase + s.size, "children are confined to their parent");
  int k = s.k++ % (s.n ? s.n : 1);
  if (s.k > s.n * s.passes) {
    ENSURES(false, "reads no child beyond the end of its parent");
    return kInvalid;
  }
  const Elem& e = s.e[k];
  s.cur = &e;
  ENSURES(pos == e.start, "children lie back to back");
  if (k == s.fail || e.pay > stop) return kInvalid;
  pos = e.pay;
  id = e.id;
  size = e.size;
  return 0;
}
static bool UintOk(const Elem& e) { return !e.bad && e.size >= 1 && e.size <= 8; }
static bool FloatOk(const Elem& e) { return !e.bad && (e.size == 4 || e.size == 8); }
static long long UIntC(IMkvReader*, long long pos, long long size) {
  Payload(pos, size);
  if (size < 1 || size > 8) return kInvalid;
  if (s.cur->bad) return kIoError;
  return (long long)s.cur->u;
}
static long IntC(IMkvReader*, long long pos, long long size, long long& v) {
  Payload(pos, size);
  if (size < 1 || size > 8) return kInvalid;
  if (s.cur->bad) return kIoError;
  v = (long long)(s.cur->u << (64 - 8 * size)) >> (64 - 8 * size);
  return 0;
}
static long FloatC(IMkvReader*, long long pos, long long size, double& v) {
  Payload(pos, size);
  if (size != 4 && size != 8) return kInvalid;
  if (s.cur->bad) return kIoError;
  v = s.cur->f;
  return 0;
}
static long StringC(IMkvReader*, long long pos, long long size, char*& str) {
  Payload(pos, size);
  delete[] str;
  str = nullptr;
  if (s.cur->bad) return kIoError;
  char* p = new char[4];
  for (int i = 0; i < 3; ++i) p[i] = i < size ? (char)s.cur->byte(i) : 0;
  p[3] = 0;
  str = p;
  return 0;
}
VF_CONTRACT(dec, header, &ParseElementHeader, &HeaderC)
VF_CONTRACT(dec, uint, &UnserializeUInt, &UIntC)
VF_CONTRACT(dec, int, &UnserializeInt, &IntC)
VF_CONTRACT(dec, flt, &UnserializeFloat, &FloatC)
VF_CONTRACT(dec, str, &UnserializeString, &StringC)

// script ---------------------------------------------------------------
// n children; IDs in `isf` hold floats, those in `isb` strings or bytes (of at
// most 3 bytes, see the bound of each proof)
static void Begin(int n, Pred isf, Pred isb, bool failing = true) {
  s.n = n;
  file = &g_file;
  long long pos = kBase;
  for (int k = 0; k < n; ++k) {
    Elem& e = s.e[k];
    e.id = (long long)(vf_nondet_u32() & 0x1FFFFFFF);
    bool i1 = e.id >= 0x81 && e.id <= 0xFE;
    bool i2 = e.id >= 0x4000 && e.id <= 0x7FFE;
    bool i3 = e.id >= 0x200000 && e.id <= 0x3FFFFE;
    bool i4 = e.id >= 0x10000000 && e.id <= 0x1FFFFFFE;
    REQUIRES(i1 || i2 || i3 || i4);
    e.idlen = i1 ? 1 : i2 ? 2 : i3 ? 3 : 4;
    e.szlen = (long)vf_range(1, 8);
    e.size = (long long)(vf_nondet_u64() & ((1ull << 56) - 1));
    REQUIRES(e.size < (1ll << (7 * e.szlen)) - 1);
    e.u = vf_nondet_u64();
    REQUIRES(e.size == 0 || e.size > 7 || e.u >> (8 * e.size) == 0);
    e.f = 0;
    if (isf(e.id)) {
      e.f = vf_nondet_f64();
      REQUIRES(e.f >= -DBL_MAX && e.f <= DBL_MAX);
      if (e.size == 4) {
        REQUIRES(e.f >= -FLT_MAX && e.f <= FLT_MAX);
        float g = (float)e.f;
        REQUIRES((double)g == e.f);
      }
    }
    if (isb(e.id)) REQUIRES(e.size <= 3);
    e.bad = failing && vf_nondet_bool();
    e.start = pos;
    e.pay = pos + e.idlen + e.szlen;
    e.end = pos = e.pay + e.size;
#ifdef VF_NATIVE
    if (k < s.fail) {
      long long p = e.start;
      g_file.Uint(p, (uint64_t)e.id, e.idlen);
      g_file.Uint(p, (uint64_t)e.size | 1ull << (7 * e.szlen), e.szlen);
      uint64_t v = e.u;
      if (isf(e.id)) {
        if (e.size == 4) {
          float g = (float)e.f;
          uint32_t w;
          memcpy(&w, &g, 4);
          v = w;
        } else {
          memcpy(&v, &e.f, 8);
        }
      }
      if (!e.bad)
        for (long long i = 0; i < e.size && i < 4096; ++i)
          g_file.at[e.pay + i] =
              e.size > 8 ? 0 : (unsigned char)(v >> (8 * (e.size - 1 - i)));
    }
#endif
  }
  s.size = pos - kBase;
  s.whole = true;
  if (n > 0 && failing && vf_nondet_bool()) {
    s.size = vf_nondet_i64();
    REQUIRES(s.size > s.e[n - 1].start - kBase && s.size < pos - kBase);
    s.whole = false;
  }
}
// As above with the layout fixed (constant header lengths, sizes and end, so
// that the verifier follows parsers that read their children twice); IDs of
// the given length, values and unreadable payloads stay symbolic.
// `ids` (if given) fixes the IDs, too.
static void BeginFixed(int n, const long* idlen, const long* size, long cut,
                       bool failing = true, const long long* ids = nullptr) {
  s.n = n;
  file = &g_file;
  long long pos = kBase;
  for (int k = 0; k < n; ++k) {
    Elem& e = s.e[k];
    e.idlen = idlen[k];
    e.id = ids ? ids[k] : (long long)(vf_nondet_u32() & 0x1FFFFFFF);
    e.szlen = 1 + k % 2;
    e.size = size[k];
    if (!ids) REQUIRES(e.id >> (7 * e.idlen) == 1);
    e.u = vf_nondet_u64();
    if (e.size > 0 && e.size < 8) e.u &= (1ull << (8 * e.size)) - 1;
    e.f = 0;
    e.bad = failing && vf_nondet_bool();
    e.start = pos;
    e.pay = pos + e.idlen + e.szlen;
    e.end = pos = e.pay + e.size;
#ifdef VF_NATIVE
    if (k < s.fail) {
      long long p = e.start;
      g_file.Uint(p, (uint64_t)e.id, e.idlen);
      g_file.Uint(p, (uint64_t)e.size | 1ull << (7 * e.szlen), e.szlen);
      if (!e.bad)
        for (long long i = 0; i < e.size; ++i)
          g_file.at[e.pay + i] = e.size > 8 ? 0 : e.byte(i);
    }
#endif
  }
  s.size = pos - kBase - cut;
  s.whole = cut == 0;
}
// the k-th child is there in full
static bool Whole(int k) {
  return k != s.fail && s.e[k].end <= kBase + s.size;
}
static bool StrIs(const char* p, const Elem& e) {
  if (!p) return false;
  bool ok = true;
  for (int i = 0; i < 3; ++i)
    if (i < e.size && (unsigned char)p[i] != e.byte(i)) ok = false;
  return ok && p[e.size] == 0;
}
static bool BytesAre(const unsigned char* p, const Elem& e) {
  if (!p) return false;
  bool ok = true;
  for (int i = 0; i < 3; ++i)
    if (i < e.size && p[i] != e.byte(i)) ok = false;
  return ok;
}
// optional string: the last child with that ID, or none
static bool OptStr(const char* p, const Elem* e) {
  return e ? StrIs(p, *e) : p == nullptr;
}
// Induction over any number of children.  The ghost record G is what the
// children read so far denote; the loop invariant is that the object under
// construction agrees with it.  At the first header the invariant is checked
// (base), then object and record are set to an arbitrary agreeing state and
// the parser is put at an arbitrary position inside the parent; it reads one
// arbitrary child there.  At the next header, or at the end of the parent, the
// object must agree with the record updated by that child (step).  What the
// parser carries from child to child apart from the object and the position is
// covered by the proofs over complete parents only.
struct Step {
  bool (*inv)();         // the object agrees with the record
  void (*any)();         // an arbitrary agreeing state
  bool (*child)(const Elem&);  // updates the record; is the child well formed?
  int headers;
  const char* str;       // string made from the child's payload
};
static Step st;
static void BeginStep(bool (*inv)(), void (*any)(), bool (*child)(const Elem&),
                      Pred isf) {
  Begin(1, isf, None);
  Elem& e = s.e[0];
  long long off = vf_nondet_i64();
  REQUIRES(off >= 0 && off <= 1ll << 60);
  e.start += off;
  e.pay += off;
  e.end += off;
  s.size = vf_nondet_i64();
  REQUIRES(s.size >= 0 && s.size <= 1ll << 61);
  st.inv = inv;
  st.any = any;
  st.child = child;
#ifdef VF_NATIVE
  REQUIRES(false);  // an arbitrary state of the loop is no input
#endif
}
static bool Present() { return s.e[0].end <= kBase + s.size; }
static void StepNext() {
  ENSURES(st.child(s.e[0]) && Present(), "a malformed child ends the parsing");
  ENSURES(st.inv(), "the object holds what the children read so far denote");
  vf_cover(true, "another child follows");
  vf_assume(false);  // covered: the state is one of those started from
}
static long HeaderStepC(IMkvReader* r, long long& pos, long long stop,
                        long long& id, long long& size) {
  const Elem& e = s.e[0];
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(stop == kBase + s.size, "children are confined to their parent");
  ENSURES(pos < stop, "reads no child beyond the end of its parent");
  if (st.headers++) {
    ENSURES(pos == e.end, "children lie back to back");
    StepNext();
    return kInvalid;
  }
  ENSURES(pos == kBase, "the first child starts where the parent does");
  ENSURES(st.inv(), "the object starts out with the defaults");
  st.any();
  REQUIRES(e.start < stop);
  s.cur = &e;
  if (e.pay > stop) return kInvalid;
  pos = e.pay;
  id = e.id;
  size = e.size;
  return 0;
}
static long StringStepC(IMkvReader*, long long pos, long long size,
                        char*& str) {
  Payload(pos, size);
  delete[] str;
  str = nullptr;
  if (s.cur->bad) return kIoError;
  str = new char[1];
  st.str = str;
  return 0;
}
VF_CONTRACT(step, header, &ParseElementHeader, &HeaderStepC)
VF_CONTRACT(step, uint, &UnserializeUInt, &UIntC)
VF_CONTRACT(step, int, &UnserializeInt, &IntC)
VF_CONTRACT(step, flt, &UnserializeFloat, &FloatC)
VF_CONTRACT(step, str, &UnserializeString, &StringStepC)
// After the parser returned: was the record completed by a well-formed child
// at the end of the parent (or was there no child)?
static bool StepDone() {
  if (!st.headers) return s.size == 0;
  return st.child(s.e[0]) && s.e[0].end == kBase + s.size;
}
static char* SomeStr() { return vf_havoc_bool() ? new char[1] : nullptr; }
static Slot<Segment> g_seg;
static Segment* Seg() {
  *const_cast<IMkvReader**>(&g_seg.v.m_pReader) = &g_file;
  return &g_seg.v;
}
}  // namespace el
#endif
