// Element-level log writer.
//
// An IMkvWriter that observes the stream of EBML elements written to it.
// Two modes:
//  * Log(): the writer never fails.  Every element must be one the Matroska
//    schema knows, inside the parent the schema names; when a master ends (an
//    element that is not its descendant starts, or the run ends) the bytes
//    written since its header must equal the size it declared; a leaf's payload
//    must be exactly as long as declared.  One arbitrarily chosen element ID is
//    watched: how often it was written, its payload (length, big-endian value,
//    one arbitrary byte).
//  * Failing(): one arbitrary write fails, with an arbitrary code (the others
//    succeed, so an ignored result is seen); nothing else is observed.
// In the verifier the muxer's encoding primitives are replaced by the contracts
// proved for C01 (WriteID, WriteUInt, WriteUIntSize, SerializeInt,
// SerializeFloat), which act on the log directly.  In the native replay the
// real bytes are recorded and parsed, and feed the same observations.
#ifndef LOG_WRITER_H_
#define LOG_WRITER_H_
#include "ebml_spec.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "vf_string.h"
#ifdef VF_NATIVE
#include <vector>
#endif

namespace schema {  // Matroska element IDs, from the specification
static inline uint64_t Parent(uint64_t id) {
  switch (id) {
    case 0x1A45DFA3: case 0x18538067: return 1;  // top level
    case 0x4286: case 0x42F7: case 0x42F2: case 0x42F3: case 0x4282:
    case 0x4287: case 0x4285: return 0x1A45DFA3;
    case 0x114D9B74: case 0x1549A966: case 0x1654AE6B: case 0x1C53BB6B:
    case 0x1043A770: case 0x1254C367: case 0x1F43B675: return 0x18538067;
    case 0x4DBB: return 0x114D9B74;
    case 0x53AB: case 0x53AC: return 0x4DBB;
    case 0x2AD7B1: case 0x4489: case 0x4461: case 0x4D80: case 0x5741:
      return 0x1549A966;
    case 0xAE: return 0x1654AE6B;
    case 0xD7: case 0x73C5: case 0x83: case 0x55EE: case 0x56AA: case 0x56BB:
    case 0x23E383: case 0x86: case 0x63A2: case 0x22B59C: case 0x536E:
    case 0x6D80: case 0xE0: case 0xE1: return 0xAE;
    case 0x6240: return 0x6D80;
    case 0x5031: case 0x5032: case 0x5033: case 0x5035: return 0x6240;
    case 0x47E1: case 0x47E2: case 0x47E7: return 0x5035;
    case 0x47E8: return 0x47E7;
    case 0xB0: case 0xBA: case 0x54B0: case 0x54BA: case 0x54CC: case 0x54DD:
    case 0x54BB: case 0x54AA: case 0x53B8: case 0x53C0: case 0x2EB524:
    case 0x2383E3: case 0x55B0: case 0x7670: return 0xE0;
    case 0x55B1: case 0x55B2: case 0x55B3: case 0x55B4: case 0x55B5:
    case 0x55B6: case 0x55B7: case 0x55B8: case 0x55B9: case 0x55BA:
    case 0x55BB: case 0x55BC: case 0x55BD: case 0x55D0: return 0x55B0;
    case 0x55D1: case 0x55D2: case 0x55D3: case 0x55D4: case 0x55D5:
    case 0x55D6: case 0x55D7: case 0x55D8: case 0x55D9: case 0x55DA:
      return 0x55D0;
    case 0x7671: case 0x7672: case 0x7673: case 0x7674: case 0x7675:
      return 0x7670;
    case 0xB5: case 0x9F: case 0x6264: return 0xE1;
    case 0xBB: return 0x1C53BB6B;
    case 0xB3: case 0xB7: return 0xBB;
    case 0xF7: case 0xF1: case 0x5378: return 0xB7;
    case 0x45B9: return 0x1043A770;
    case 0xB6: return 0x45B9;
    case 0x5654: case 0x73C4: case 0x91: case 0x92: case 0x80: return 0xB6;
    case 0x85: case 0x437C: case 0x437E: return 0x80;
    case 0x7373: return 0x1254C367;
    case 0x67C8: return 0x7373;
    case 0x45A3: case 0x4487: return 0x67C8;
    case 0xE7: case 0xA3: case 0xA0: return 0x1F43B675;
    case 0xA1: case 0x75A1: case 0x9B: case 0xFB: case 0x75A2: return 0xA0;
    case 0xA6: return 0x75A1;
    case 0xEE: case 0xA5: return 0xA6;
    case 0xEC: return 2;  // anywhere
  }
  return 0;  // not an element this muxer may write
}
static inline bool IsMaster(uint64_t id) {
  switch (id) {
    case 0x1A45DFA3: case 0x18538067: case 0x114D9B74: case 0x1549A966:
    case 0x1654AE6B: case 0x1C53BB6B: case 0x1043A770: case 0x1254C367:
    case 0x1F43B675: case 0x4DBB: case 0xAE: case 0x6D80: case 0x6240:
    case 0x5035: case 0x47E7: case 0xE0: case 0xE1: case 0x55B0: case 0x55D0:
    case 0x7670: case 0xBB: case 0xB7: case 0x45B9: case 0xB6: case 0x80:
    case 0x7373: case 0x67C8: case 0xA0: case 0x75A1: case 0xA6:
      return true;
  }
  return false;
}
static inline unsigned Level(uint64_t id) {  // 1 = top level
  unsigned l = 0;
  for (unsigned i = 0; i < 8; ++i)
    if (id > 2) {
      ++l;
      id = Parent(id);
    }
  return l;
}
}  // namespace schema

struct LW final : mkvmuxer::IMkvWriter {
  uint64_t n = 0;
  bool log = false;
  bool fails = false;
  uint64_t fail_at = 0;
  uint64_t ops = 0;
  int32_t fail_code = -1;
  bool failed = false;
  bool seekable = true;
  // current element
  uint64_t cur_id = 0;
  bool in_header = false;  // ID written, size not yet
  bool in_leaf = false;
  uint64_t leaf_left = 0;  // payload bytes of the current leaf still to come
  uint64_t leaf_off = 0;
  bool leaf_watched = false;
  // open masters, by schema level
  struct Open {
    uint64_t id = 0;
    uint64_t end = 0;  // where it ends by the size it declares
    bool open = false, unknown = false;
  } lv[10];
  bool any = false;
  // the watched ID
  uint64_t wid = 0;
  uint64_t wbyte = 0;
  unsigned count = 0;
  uint64_t vLen = 0, vU = 0;
  uint8_t vByte = 0;
#ifdef VF_NATIVE
  std::vector<uint8_t> bytes;
#endif

  void Log() {
    log = true;
    wid = vf_nondet_u64();
    wbyte = vf_nondet_u64();
  }
  bool counting = false;
  void Count() { counting = true; }
  void Failing() {
    fails = true;
    fail_code = vf_nondet_i32();
    vf_assume(fail_code != 0);
#ifdef VF_NATIVE
    // the verifier counts primitives, the replay tries every byte position
    vf_nondet_u64();
    fail_at = vf_native_iterate(4000);
#else
    fail_at = vf_nondet_u64();
#endif
  }
  bool Fails(uint64_t len) {
    if (counting) n += len;
    if (!fails) return false;
    // exactly one write fails; later ones would succeed
#ifdef VF_NATIVE
    bool f = n <= fail_at && n + len > fail_at;
#else
    bool f = ops++ == fail_at;
#endif
    n += len;
    if (f) failed = true;
    return f;
  }
  // ---- observations ------------------------------------------------------
  void CloseFrom(unsigned level) {
    for (unsigned l = 9; l >= 1; --l)
      if (l >= level && lv[l].open) {
        if (!lv[l].unknown)
          ENSURES(n == lv[l].end,
                  "a master holds exactly the bytes it declares");
        lv[l].open = false;
      }
  }
  void LeafDone() {
    ENSURES(!in_header, "an element ID is followed by its size");
    if (in_leaf)
      ENSURES(leaf_left == 0,
              "a leaf element holds exactly the bytes it declares");
    in_leaf = false;
  }
  void OnId(uint64_t id) {
    if (!log) return;
    LeafDone();
    uint64_t parent = schema::Parent(id);
    ENSURES(parent != 0, "only elements of the schema are written");
    if (parent != 2) {
      unsigned level = schema::Level(id);
      CloseFrom(level);
      ENSURES(!any || (lv[level - 1].open && lv[level - 1].id == parent) ||
                  (level == base && base_ok),
              "element is inside the parent the schema names");
      if (!any) base = level;
    }
    any = true;
    cur_id = id;
    n += spec::UIntLen(id);
    in_header = true;
  }
  unsigned base = 0;
  bool base_ok = false;  // several elements at the level of the first
  void OnSize(uint64_t size, unsigned len, bool unknown) {
    if (!log) return;
    in_header = false;
    n += len;
    bool master = schema::IsMaster(cur_id);
    ENSURES(master || !unknown, "only masters may have an unknown size");
    leaf_watched = false;
    if (cur_id == wid) {
      ++count;
      vLen = size;
      vU = 0;
      vByte = 0;
      leaf_watched = !master;
    }
    if (master) {
      unsigned l = schema::Level(cur_id);
      lv[l].id = cur_id;
      lv[l].open = true;
      lv[l].unknown = unknown;
      lv[l].end = n + size;
    } else {
      in_leaf = true;
      leaf_left = size;
      leaf_off = 0;
    }
  }
  // a whole element of `total` bytes, contents unspecified
  bool Opaque(uint64_t id, uint64_t total) {
    if (Fails(total)) return false;
    if (!log) return true;
    uint64_t start = n;
    OnId(id);
    OnSize(0, 1, false);
    n = start + total;
    lv[schema::Level(id)].open = false;
    return true;
  }
  void Payload(uint64_t len) {
    ENSURES(in_leaf && len <= leaf_left,
            "payload bytes belong to a leaf element");
    leaf_left -= len;
    leaf_off += len;
    n += len;
  }
  void OnInt(uint64_t v, unsigned size) {
    if (!log) return;
    if (leaf_watched) {
      vU = size >= 8 ? v
                     : ((vU << (8 * size)) | (v & ((1ull << (8 * size)) - 1)));
      if (wbyte >= leaf_off && wbyte - leaf_off < size)
        vByte = spec::BeByte(v, size, wbyte - leaf_off);
    }
    Payload(size);
  }
  void OnRaw(const uint8_t* p, uint64_t len) {
    if (!log) return;
    if (leaf_watched) {
#ifdef VF_NATIVE
      for (unsigned i = 0; i < 8; ++i)
        if (i < len && leaf_off + i < 8) vU = (vU << 8) | p[i];
#endif
      if (wbyte >= leaf_off && wbyte - leaf_off < len) vByte = p[wbyte - leaf_off];
    }
    Payload(len);
  }
  // ---- IMkvWriter ----------------------------------------------------------
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 len) override {
#ifdef VF_NATIVE
    if (!fails && !counting) n += len;
    if (Fails(len)) return fail_code;
    bytes.insert(bytes.end(), (const uint8_t*)b, (const uint8_t*)b + len);
#else
    if (Fails(len)) return fail_code;
    OnRaw((const uint8_t*)b, len);
#endif
    return 0;
  }
  mkvmuxer::int64 Position() const override { return (int64_t)n; }
  mkvmuxer::int32 Position(mkvmuxer::int64) override { return -1; }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}
  // ---- end of the run ------------------------------------------------------
  void Finish() {
#ifdef VF_NATIVE
    if (log) ParseBytes();
#endif
    LeafDone();
    CloseFrom(1);
  }
#ifdef VF_NATIVE
  void ParseBytes() {
    size_t p = 0;
    n = 0;
    while (p < bytes.size()) {
      unsigned il = bytes[p] ? __builtin_clz(bytes[p]) - 24 + 1 : 1;
      uint64_t id = 0;
      for (unsigned i = 0; i < il && p < bytes.size(); ++i)
        id = id << 8 | bytes[p++];
      OnId(id);
      if (p >= bytes.size()) break;
      unsigned sl = bytes[p] ? __builtin_clz(bytes[p]) - 24 + 1 : 9;
      ENSURES(sl <= 8 && p + sl <= bytes.size(), "size field is well formed");
      uint64_t s = bytes[p++] & ((1u << (8 - sl)) - 1);
      for (unsigned i = 1; i < sl; ++i) s = s << 8 | bytes[p++];
      bool unknown = s == (1ull << (7 * sl)) - 1;
      OnSize(unknown ? 0 : s, sl, unknown);
      if (!schema::IsMaster(id)) {
        uint64_t l = bytes.size() - p < s ? bytes.size() - p : s;
        OnRaw(bytes.data() + p, l);
        p += l;
      }
    }
  }
#endif
};
// ---- contracts of the encoding primitives (proved in mux_util.cc) ----------
#ifndef VF_NATIVE
namespace lwc {
using namespace mkvmuxer;
static int32 C_WriteID(IMkvWriter* w, uint64 id) {
  if (!w) return -1;
  LW* l = static_cast<LW*>(w);
  if (l->Fails(spec::UIntLen(id))) return l->fail_code;
  l->OnId(id);
  return 0;
}
static int32 Sized(LW* l, uint64 v, unsigned len) {
  if (l->Fails(len)) return l->fail_code;
  if (l->in_header)
    l->OnSize(v, len, false);
  else
    l->OnInt(spec::VarIntBits(v, len), len);
  return 0;
}
static int32 C_WriteUInt(IMkvWriter* w, uint64 v) {
  if (!w || v > spec::kMaxVarInt) return -1;
  return Sized(static_cast<LW*>(w), v, spec::VarIntLen(v));
}
static int32 C_WriteUIntSize(IMkvWriter* w, uint64 v, int32 size) {
  if (!w || size < 0 || size > 8) return -1;
  if (size == 0) return C_WriteUInt(w, v);
  if (v > (1ull << (7 * size)) - 2) return -1;
  return Sized(static_cast<LW*>(w), v, size);
}
static int32 C_SerializeInt(IMkvWriter* w, int64 v, int32 size) {
  if (!w || size < 1 || size > 8) return -1;
  LW* l = static_cast<LW*>(w);
  if (l->Fails(size)) return l->fail_code;
  if (l->in_header) {
    ENSURES(size == 8 && (uint64_t)v == 0x01FFFFFFFFFFFFFFull,
            "a size field is a well-formed EBML size");
    l->OnSize(0, 8, true);
  } else {
    l->OnInt((uint64_t)v, (unsigned)size);
  }
  return 0;
}
static int32 C_SerializeFloat(IMkvWriter* w, float f) {
  if (!w) return -1;
  LW* l = static_cast<LW*>(w);
  if (l->Fails(4)) return l->fail_code;
  uint32_t b;
  memcpy(&b, &f, 4);
  l->OnInt(b, 4);
  return 0;
}
static int32 C_GetUIntSize(uint64 v) { return (int32)spec::UIntLen(v); }
static int32 C_GetIntSize(int64 v) { return (int32)spec::IntLen(v); }
static int32 C_GetCodedUIntSize(uint64 v) {
  return v > spec::kMaxVarInt ? 8 : (int32)spec::VarIntLen(v);
}
}  // namespace lwc
VF_CONTRACT(enc, id, &mkvmuxer::WriteID, &lwc::C_WriteID)
VF_CONTRACT(enc, uint, &mkvmuxer::WriteUInt, &lwc::C_WriteUInt)
VF_CONTRACT(enc, uintsize, &mkvmuxer::WriteUIntSize, &lwc::C_WriteUIntSize)
VF_CONTRACT(enc, ser, &mkvmuxer::SerializeInt, &lwc::C_SerializeInt)
VF_CONTRACT(enc, serf, &mkvmuxer::SerializeFloat, &lwc::C_SerializeFloat)
VF_CONTRACT(enc, ulen, &mkvmuxer::GetUIntSize, &lwc::C_GetUIntSize)
VF_CONTRACT(enc, ilen, &mkvmuxer::GetIntSize, &lwc::C_GetIntSize)
VF_CONTRACT(enc, clen, &mkvmuxer::GetCodedUIntSize, &lwc::C_GetCodedUIntSize)
#endif

// ---- expectations on the watched ID ----------------------------------------
// Exp e(w);  e.U(id, present, value); ...  e.Done();
struct Exp {
  LW& w;
  bool known = false;
  explicit Exp(LW& l) : w(l) {}
  void N(uint64_t id, unsigned n) {  // a master, or a leaf checked elsewhere
    if (w.wid != id) return;
    known = true;
    ENSURES(w.count == n, "element is present exactly when configured");
  }
  void U(uint64_t id, bool present, uint64_t v) {
    if (w.wid != id) return;
    N(id, present);
    if (present && w.count)
      ENSURES(w.vLen >= 1 && w.vLen <= 8 && w.vU == v,
              "unsigned element holds the configured value");
  }
  void F(uint64_t id, bool present, float v) {
    if (w.wid != id) return;
    N(id, present);
    uint32_t b;
    memcpy(&b, &v, 4);
    if (present && w.count)
      ENSURES(w.vLen == 4 && w.vU == b,
              "float element holds the configured value");
  }
  void B(uint64_t id, bool present, const void* p, uint64_t len) {
    if (w.wid != id) return;
    N(id, present);
    if (present && w.count) {
      ENSURES(w.vLen == len, "string/binary element has the configured length");
      if (w.wbyte < len)
        ENSURES(w.vByte == ((const uint8_t*)p)[w.wbyte],
                "string/binary element holds the configured bytes");
    }
  }
  void S(uint64_t id, const char* s) {
    if (w.wid != id) return;
    B(id, s != nullptr, s, s ? vf_model_strlen(s) : 0);
  }
  void Done() {
    if (!known && w.wid != 0xEC)
      ENSURES(w.count == 0, "nothing else is written");
  }
};
#endif
