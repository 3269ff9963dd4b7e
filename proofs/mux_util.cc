//@ file property=C01 src=mkv unwind=10
// Encoding primitives of the muxer against the EBML rules.
#include "ghost_writer.h"
#include "common/webmids.h"
#include "vf_string.h"
using namespace mkvmuxer;

// ---- contract checking helper: element = header(id, size) | payload --------
// `pay(i)` gives the i-th payload byte.
template <class F>
static void ElementWritten(const GW& w, uint64_t id, uint64_t size, F pay,
                           bool ok) {
  if (w.failed) {
    ENSURES(!ok, "a failed write is reported");
    return;
  }
  if (!ok) return;
  uint64_t hl = spec::HeaderLen(id, size);
  ENSURES(w.n == hl + size, "element occupies header + declared size");
  if (w.watch < w.n) {
    ENSURES(w.hits == 1, "each byte is written exactly once");
    if (w.watch < hl)
      ENSURES(w.byte == spec::HeaderByte(id, size, w.watch), "header bytes");
    else
      ENSURES(w.byte == pay(w.watch - hl), "payload bytes");
  } else {
    ENSURES(w.hits == 0, "nothing is written elsewhere");
  }
  ENSURES(w.note_id == id && w.note_pos == (int64_t)w.base && w.notes == 1,
          "element start is announced at its position");
}

//@ proof coded_size functions=GetCodedUIntSize,GetUIntSize,GetIntSize
VF_PROOF(coded_size) {
  uint64_t v = vf_nondet_u64();
  int64_t s = vf_nondet_i64();
  ENSURES(GetUIntSize(v) == (int)spec::UIntLen(v), "GetUIntSize is minimal");
  ENSURES(GetIntSize(s) == (int)spec::IntLen(s), "GetIntSize is minimal");
  if (v <= spec::kMaxVarInt)
    ENSURES(GetCodedUIntSize(v) == (int)spec::VarIntLen(v),
            "GetCodedUIntSize is the shortest non-reserved width");
  else
    ENSURES(GetCodedUIntSize(v) == 8, "GetCodedUIntSize saturates at 8");
}

//@ proof serialize_int functions=SerializeInt
VF_PROOF(serialize_int) {
  GW w;
  w.Init();
  int64_t v = vf_nondet_i64();
  int32_t size = vf_nondet_i32();
  int32_t r = SerializeInt(&w, v, size);
  if (size < 1 || size > 8) {
    ENSURES(r != 0 && w.n == 0, "bad width is rejected");
    return;
  }
  if (w.failed) {
    ENSURES(r != 0, "a failed write is reported");
    return;
  }
  ENSURES(r == 0 && w.n == (unsigned)size, "writes size bytes");
  if (w.watch < w.n)
    ENSURES(w.hits == 1 && w.byte == spec::BeByte((uint64_t)v, size, w.watch),
            "big-endian bytes");
  vf_cover(r == 0 && size == 8, "8-byte success");
}

//@ proof serialize_float functions=SerializeFloat
VF_PROOF(serialize_float) {
  GW w;
  w.Init();
  uint32_t bits = vf_nondet_u32();
  float f;
  memcpy(&f, &bits, 4);
  REQUIRES(f == f);  // NaN payloads are not preserved by float moves
  int32_t r = SerializeFloat(&w, f);
  if (w.failed) {
    ENSURES(r != 0, "a failed write is reported");
    return;
  }
  ENSURES(r == 0 && w.n == 4, "writes 4 bytes");
  if (w.watch < w.n)
    ENSURES(w.byte == spec::BeByte(bits, 4, w.watch), "IEEE-754 big-endian");
  ENSURES(SerializeFloat(nullptr, f) != 0, "null writer is rejected");
}

//@ proof write_uint_size functions=WriteUIntSize,SerializeInt
VF_PROOF(write_uint_size) {
  GW w;
  w.Init();
  uint64_t v = vf_nondet_u64();
  int32_t size = vf_nondet_i32();
  int32_t r = WriteUIntSize(&w, v, size);
  if (size < 0 || size > 8) {
    ENSURES(r != 0 && w.n == 0, "bad width is rejected");
    return;
  }
  unsigned len;
  if (size == 0) {
    if (v > spec::kMaxVarInt) {
      ENSURES(r != 0 && w.n == 0, "unrepresentable value is rejected");
      return;
    }
    len = spec::VarIntLen(v);
  } else {
    if (v > (1ull << (7 * size)) - 2) {
      ENSURES(r != 0 && w.n == 0, "value too large for width is rejected");
      return;
    }
    len = size;
  }
  if (w.failed) {
    ENSURES(r != 0, "a failed write is reported");
    return;
  }
  ENSURES(r == 0 && w.n == len, "length");
  if (w.watch < w.n)
    ENSURES(w.byte == spec::BeByte(spec::VarIntBits(v, len), len, w.watch),
            "marker + value bits");
}

//@ proof write_uint functions=WriteUInt
VF_PROOF(write_uint) {
  GW w;
  w.Init();
  uint64_t v = vf_nondet_u64();
  int32_t r = WriteUInt(&w, v);
  if (v > spec::kMaxVarInt) {
    ENSURES(r != 0 && w.n == 0, "unrepresentable value is rejected");
    return;
  }
  if (w.failed) {
    ENSURES(r != 0, "a failed write is reported");
    return;
  }
  unsigned len = spec::VarIntLen(v);
  ENSURES(r == 0 && w.n == len, "shortest length");
  if (w.watch < w.n)
    ENSURES(w.byte == spec::BeByte(spec::VarIntBits(v, len), len, w.watch),
            "marker + value bits");
}

//@ proof write_id functions=WriteID
VF_PROOF(write_id) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  int32_t r = WriteID(&w, id);
  if (w.failed) {
    ENSURES(r != 0, "a failed write is reported");
    return;
  }
  ENSURES(r == 0 && w.n == spec::UIntLen(id), "id length");
  if (w.watch < w.n)
    ENSURES(w.byte == spec::BeByte(id, spec::UIntLen(id), w.watch), "id bytes");
  ENSURES(w.notes == 1 && w.note_id == id && w.note_pos == (int64_t)w.base,
          "element start is announced at its position");
}

//@ proof write_master functions=WriteEbmlMasterElement,EbmlMasterElementSize
VF_PROOF(write_master) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64(), size = vf_nondet_u64();
  bool ok = WriteEbmlMasterElement(&w, id, size);
  if (size > spec::kMaxVarInt) {
    ENSURES(!ok, "unrepresentable size is rejected");
    return;
  }
  if (!w.failed) {
    ENSURES(ok, "succeeds");
    ENSURES(w.n == spec::HeaderLen(id, size), "header length");
    ENSURES(EbmlMasterElementSize(id, size) == w.n,
            "predicted size = bytes written");
    if (w.watch < w.n)
      ENSURES(w.byte == spec::HeaderByte(id, size, w.watch), "header bytes");
    ENSURES(w.notes == 1 && w.note_id == id && w.note_pos == (int64_t)w.base,
            "element start is announced at its position");
  } else {
    ENSURES(!ok, "a failed write is reported");
  }
  ENSURES(!WriteEbmlMasterElement(nullptr, id, size), "null writer is rejected");
}

//@ proof write_elem_uint functions=WriteEbmlElement(uint64),EbmlElementSize(uint64)
VF_PROOF(write_elem_uint) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  uint64 v = vf_nondet_u64();
  bool ok = WriteEbmlElement(&w, id, v);
  unsigned len = spec::UIntLen(v);
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, len, [&](uint64_t i) { return spec::BeByte(v, len, i); },
                 ok);
  if (ok)
    ENSURES(EbmlElementSize(id, v) == w.n,
            "predicted size = bytes written");
}

//@ proof write_elem_fixed functions=WriteEbmlElement(uint64,fixed),EbmlElementSize(uint64,fixed)
VF_PROOF(write_elem_fixed) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  uint64 v = vf_nondet_u64();
  uint64 fixed = vf_nondet_u64();
  bool ok = WriteEbmlElement(&w, id, v, fixed);
  uint64_t len = fixed ? fixed : spec::UIntLen(v);
  if (len > 8 || len < spec::UIntLen(v)) {
    ENSURES(!ok, "a width that cannot hold the value is rejected");
    return;
  }
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, len,
                 [&](uint64_t i) { return spec::BeByte(v, (unsigned)len, i); }, ok);
  if (ok)
    ENSURES(EbmlElementSize(id, v, fixed) == w.n,
            "predicted size = bytes written");
}

//@ proof write_elem_int functions=WriteEbmlElement(int64),EbmlElementSize(int64)
VF_PROOF(write_elem_int) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  int64 v = vf_nondet_i64();
  bool ok = WriteEbmlElement(&w, id, v);
  unsigned len = spec::IntLen(v);
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, len,
                 [&](uint64_t i) { return spec::BeByte((uint64_t)v, len, i); },
                 ok);
  if (ok)
    ENSURES(EbmlElementSize(id, v) == w.n,
            "predicted size = bytes written");
}

//@ proof write_elem_float functions=WriteEbmlElement(float),EbmlElementSize(float)
VF_PROOF(write_elem_float) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  uint32_t bits = vf_nondet_u32();
  float v;
  memcpy(&v, &bits, 4);
  REQUIRES(v == v);
  bool ok = WriteEbmlElement(&w, id, v);
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, 4, [&](uint64_t i) { return spec::BeByte(bits, 4, i); },
                 ok);
  if (ok)
    ENSURES(EbmlElementSize(id, v) == w.n,
            "predicted size = bytes written");
}

//@ proof write_elem_date functions=WriteEbmlDateElement,EbmlDateElementSize
VF_PROOF(write_elem_date) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  int64 v = vf_nondet_i64();
  bool ok = WriteEbmlDateElement(&w, id, v);
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, 8,
                 [&](uint64_t i) { return spec::BeByte((uint64_t)v, 8, i); }, ok);
  if (ok)
    ENSURES(EbmlDateElementSize(id) == w.n,
            "predicted size = bytes written");
}

//@ proof write_elem_binary functions=WriteEbmlElement(binary),EbmlElementSize(binary)
VF_PROOF(write_elem_binary) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  uint64 size = vf_nondet_u64();
  REQUIRES(size <= 0xffffffffull);
#ifdef VF_NATIVE
  REQUIRES(size <= (1u << 28));
#endif
  uint8_t* data = (uint8_t*)vf_alloc(size);
  bool ok = WriteEbmlElement(&w, id, data, size);
  if (size == 0) {
    ENSURES(!ok && w.n == 0, "empty binary element is rejected");
    return;
  }
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, size, [&](uint64_t i) { return data[i]; }, ok);
  if (ok)
    ENSURES(EbmlElementSize(id, data, size) == w.n,
            "predicted size = bytes written");
  ENSURES(EbmlElementSize(id, (const uint8*)nullptr, size) == 0,
          "absent value has no size");
  ENSURES(!WriteEbmlElement(&w, id, (const uint8*)nullptr, size),
          "absent value is rejected");
  vf_cover(ok && size > 100000, "long binary");
}

//@ proof write_elem_string replace=strlen=vf_model_strlen functions=WriteEbmlElement(string),EbmlElementSize(string)
VF_PROOF(write_elem_string) {
  GW w;
  w.Init();
  uint64_t id = vf_nondet_u64();
  const char* s = vf_string(0, 0xffffffffull);
  uint64_t size = vf_model_strlen(s);
  bool ok = WriteEbmlElement(&w, id, s);
  ENSURES(ok || w.failed, "succeeds unless the writer fails");
  ElementWritten(w, id, size, [&](uint64_t i) { return (uint8_t)s[i]; }, ok);
  if (ok)
    ENSURES(EbmlElementSize(id, s) == w.n, "predicted size = bytes written");
  ENSURES(EbmlElementSize(id, (const char*)nullptr) == 0,
          "absent value has no size");
  ENSURES(!WriteEbmlElement(&w, id, (const char*)nullptr),
          "absent value is rejected");
  ENSURES(!WriteEbmlElement(nullptr, id, s), "null writer is rejected");
  vf_cover(ok && size > 100000, "long string");
}

//@ proof null_writer functions=WriteID,WriteUInt,WriteUIntSize,SerializeInt,WriteEbmlElement,WriteEbmlDateElement,WriteVoidElement
VF_PROOF(null_writer) {
  uint64 id = vf_nondet_u64(), v = vf_nondet_u64();
  uint8 b = 0;
  ENSURES(WriteID(nullptr, id) != 0, "WriteID");
  ENSURES(WriteUInt(nullptr, v) != 0, "WriteUInt");
  ENSURES(WriteUIntSize(nullptr, v, 4) != 0, "WriteUIntSize");
  ENSURES(SerializeInt(nullptr, (int64)v, 4) != 0, "SerializeInt");
  ENSURES(!WriteEbmlElement(nullptr, id, v), "unsigned");
  ENSURES(!WriteEbmlElement(nullptr, id, v, (uint64)4), "fixed width");
  ENSURES(!WriteEbmlElement(nullptr, id, (int64)v), "signed");
  ENSURES(!WriteEbmlElement(nullptr, id, 1.0f), "float");
  ENSURES(!WriteEbmlElement(nullptr, id, &b, (uint64)1), "binary");
  ENSURES(!WriteEbmlDateElement(nullptr, id, (int64)v), "date");
  ENSURES(WriteVoidElement(nullptr, v) == 0, "void");
}

// WriteVoidElement: exactly `size` bytes (so that padding never shifts what
// follows), or failure.
static void VoidElement(uint64 size) {
  GW w;
  w.Init();
  uint64 r = WriteVoidElement(&w, size);
  if (w.failed) {
    ENSURES(r == 0, "a failed write is reported");
    return;
  }
  ENSURES(r == 0 || r == size, "all or nothing");
  if (r == 0) {
    // 128 and 129 sit at the one-octet size limit and are refused
    ENSURES(size < 2 || size == 128 || size == 129 || size > 1000,
            "ordinary sizes are accepted");
    return;
  }
  uint64 pay = size - 1 - spec::VarIntLen(size - 2);
  ENSURES(w.n == size, "element occupies exactly the size asked for");
  if (w.watch < w.n) {
    ENSURES(w.hits == 1, "each byte is written exactly once");
    ENSURES(w.byte == (w.watch < size - pay
                           ? spec::HeaderByte(0xEC, size <= 129 ? size - 2 : size - 3, w.watch)
                           : 0),
            "Void header, zero payload");
  }
  ENSURES(w.notes == 1 && w.note_id == 0xEC && w.note_pos == (int64_t)w.base,
          "element start is announced at its position");
}
//@ proof write_void kind=bounded bound="Void elements of at most 40 bytes" unwind=42 functions=WriteVoidElement
VF_PROOF(write_void) {
  uint64 size = vf_nondet_u64();
  REQUIRES(size <= 40);
  VoidElement(size);
  vf_cover(size > 1, "written");
}
//@ proof write_void_limit kind=bounded bound="Void elements of 128, 129, 130 and 205 bytes" unwind=210 functions=WriteVoidElement
VF_PROOF(write_void_limit) {
  switch (vf_nondet_u8()) {
    case 0: return VoidElement(128);
    case 1: return VoidElement(129);
    case 2: return VoidElement(130);
    case 3: return VoidElement(205);
  }
}
