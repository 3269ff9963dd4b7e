//@ file property=C15 src=mkv unwind=10 unwind_cap=20 contracts=dec,hdr solver=cadical cdefine=VF_NO_OOM kind=bounded bound="3 children, strings of at most 3 bytes" assume="allocations succeed in the metadata parsers"
// mkvparser: the EBML header of a file.
#include "elements.h"
using namespace el;
static int g_junk;    // bytes before the header
static long g_szlen;  // of its size field
static bool g_other;  // the ID found is another one
static int Outside(long long pos, long len, unsigned char* buf) {
  ENSURES(len == 1 && pos >= 0 && pos < g_avail && pos < 1024,
          "scans the bytes that are there");
  ENSURES(pos <= g_junk, "stops at the first byte of the header");
  *buf = pos == g_junk ? 0x1A : (unsigned char)(pos + 0x1B);
  return 0;
}
// ReadID, GetUIntLength, ReadUInt: proved in parse_ebml.cc (C04)
static long long HdrIDC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file, "reads the file");
  len = 1;
  if (pos != g_junk || g_avail - pos < 4)
    return vf_havoc_bool() ? kNotFull : kInvalid;
  if (g_other) {
    len = 1 + (vf_havoc_u8() & 3);
    long long id = vf_havoc_u32();
    REQUIRES(id != 0x1A45DFA3);
    return vf_havoc_bool() ? id : kInvalid;
  }
  len = 4;
  return 0x1A45DFA3;
}
static long long HdrLenC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file && pos == g_junk + 4, "reads the size of the header");
  len = 1;
  if (pos >= g_avail) return pos;
  len = g_szlen;
  return 0;
}
static long long HdrSizeC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file && pos == g_junk + 4, "reads the size of the header");
  ENSURES(g_avail - pos >= g_szlen, "the size is available");
  len = g_szlen;
  return s.size;
}
VF_CONTRACT(hdr, id, &ReadID, &HdrIDC)
VF_CONTRACT(hdr, len, &GetUIntLength, &HdrLenC)
VF_CONTRACT(hdr, size, &ReadUInt, &HdrSizeC)
static void Place(int junk, long szlen) {
  g_junk = junk;
  g_szlen = szlen;
  kBase = junk + 4 + szlen;
  g_outside = Outside;
}
static void File_() {
  g_length_ok = vf_nondet_bool();
  g_avail = vf_nondet_i64();
  g_total = vf_nondet_bool() ? -1 : vf_nondet_i64();
  REQUIRES(g_avail >= 0 && (g_total == -1 || g_total >= g_avail));
  g_other = vf_nondet_bool();
  REQUIRES(s.size < (1ll << (7 * g_szlen)) - 1);
#ifdef VF_NATIVE
  for (int i = 0; i < g_junk; ++i) g_file.at[i] = (unsigned char)(i + 0x1B);
  long long p = g_junk;
  g_file.Uint(p, g_other ? 0x1A45DFA2 : 0x1A45DFA3, 4);
  g_file.Uint(p, (uint64_t)s.size | 1ull << (7 * g_szlen), g_szlen);
#endif
}
struct Rec {
  long long v[6];  // version, read version, ID and size limits, doc versions
};
static const Rec kDefault = {{1, 1, 4, 8, 1, 1}};
static int Field(long long id) {
  return id == 0x4286 ? 0 : id == 0x42F7 ? 1 : id == 0x42F2 ? 2
       : id == 0x42F3 ? 3 : id == 0x4287 ? 4 : id == 0x4285 ? 5 : 6;
}
static bool Is(const EBMLHeader& h, const Rec& r) {
  return h.m_version == r.v[0] && h.m_readVersion == r.v[1] &&
         h.m_maxIdLength == r.v[2] && h.m_maxSizeLength == r.v[3] &&
         h.m_docTypeVersion == r.v[4] && h.m_docTypeReadVersion == r.v[5];
}
static bool Limits(const Rec& r) { return r.v[2] <= 4 && r.v[3] <= 8; }
// Is the whole header there?  Otherwise nothing is accepted.
static bool There() {
  return g_length_ok && !g_other && g_avail >= kBase + s.size;
}
static void Missing(long long r) {
  ENSURES(r != 0, "nothing is accepted before the header is there");
  if (r > 0)
    ENSURES(r > g_avail && r <= kBase + s.size && g_length_ok && !g_other,
            "asks for bytes of the header that are not there yet");
  if (g_length_ok && g_total >= 0 && g_total < kBase + s.size)
    ENSURES(r < 0 || r <= kBase, "a header that overruns the file is refused");
}
static void Header(int junk, long szlen) {
  Place(junk, szlen);
  Begin(3, None, [](long long id) { return id == 0x4282; });
  File_();
  EBMLHeader& h = *new EBMLHeader();
  long long pos = vf_nondet_i64();
  long long r = h.Parse(&g_file, pos);
  if (!There()) {
    Missing(r);
    return;
  }
  Rec want = kDefault;
  const Elem* doc = nullptr;
  bool ok = true;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k) || e.size == 0) ok = false;
    int f = Field(e.id);
    for (int i = 0; i < 6; ++i)
      if (i == f) {
        want.v[i] = (long long)e.u;
        if (!UintOk(e) || (long long)e.u <= 0) ok = false;
      }
    if (e.id == 0x4282) {
      if (doc || e.bad) ok = false;
      doc = &e;
    }
  }
  if (!doc || !Limits(want)) ok = false;
  ENSURES((r == 0) == ok, "exactly well-formed headers are accepted");
  ENSURES(r <= 0, "errors are negative");
  if (r) return;
  ENSURES(Is(h, want), "fields of the last such children or the defaults");
  ENSURES(StrIs(h.m_docType, *doc), "document type");
  ENSURES(pos == kBase + s.size, "the position after the header");
  vf_cover(want.v[4] == 4, "document version 4");
}
//@ proof ebml_header functions=EBMLHeader::Parse,EBMLHeader::Init
VF_PROOF(ebml_header) { Header(0, 8); }
//@ proof ebml_header_junk functions=EBMLHeader::Parse bound="3 children, strings of at most 3 bytes, 3 bytes before the header"
VF_PROOF(ebml_header_junk) { Header(3, 8); }
//@ proof ebml_header_null functions=EBMLHeader::Parse kind=proof bound=""
VF_PROOF(ebml_header_null) {
  EBMLHeader h;
  long long pos = 0;
  ENSURES(h.Parse(nullptr, pos) < 0, "a reader is required");
}
// ---- any number of children ------------------------------------------------
static EBMLHeader* g_h;
static Rec g_rec = kDefault;
static const char* g_doc;
static bool HInv() {
  bool ok = Is(*g_h, g_rec) && g_h->m_docType == g_doc;
  for (int i = 0; i < 6; ++i)
    if (g_rec.v[i] <= 0) ok = false;
  return ok;
}
static void HAny() {
  for (int i = 0; i < 6; ++i) {
    g_rec.v[i] = (long long)vf_havoc_u64();
    REQUIRES(g_rec.v[i] > 0);
  }
  g_h->m_version = g_rec.v[0];
  g_h->m_readVersion = g_rec.v[1];
  g_h->m_maxIdLength = g_rec.v[2];
  g_h->m_maxSizeLength = g_rec.v[3];
  g_h->m_docTypeVersion = g_rec.v[4];
  g_h->m_docTypeReadVersion = g_rec.v[5];
  g_doc = g_h->m_docType = SomeStr();
}
static bool HChild(const Elem& e) {
  if (e.size == 0) return false;
  int f = Field(e.id);
  for (int i = 0; i < 6; ++i)
    if (i == f) {
      g_rec.v[i] = (long long)e.u;
      return UintOk(e) && (long long)e.u > 0;
    }
  if (e.id != 0x4282) return true;
  if (g_doc || e.bad) return false;
  g_doc = st.str;
  return true;
}
//@ proof ebml_header_step functions=EBMLHeader::Parse,EBMLHeader::Init contracts=step,hdr kind=proof bound=""
VF_PROOF(ebml_header_step) {
  Place(0, 8);
  BeginStep(HInv, HAny, HChild, None);
  File_();
  g_h = new EBMLHeader();
  long long pos = vf_nondet_i64();
  long long r = g_h->Parse(&g_file, pos);
  if (!There()) {
    Missing(r);
    return;
  }
  bool done = StepDone();
  ENSURES((r == 0) == (done && g_doc && Limits(g_rec)) && r <= 0,
          "exactly well-formed headers are accepted");
  if (r) return;
  ENSURES(Is(*g_h, g_rec) && g_h->m_docType == g_doc,
          "fields of the last such children or the defaults");
  ENSURES(pos == kBase + s.size, "the position after the header");
  vf_cover(st.str && g_doc == st.str, "document type");
}
// ---- the header is looked for behind up to 1024 other bytes --------------------
static const unsigned char kTiny[] = {0x1A, 0x45, 0xDF, 0xA3, 0x84,
                                      0x42, 0x82, 0x81, 0x77};
static long long g_found = -1;
static bool g_scan_error;
struct ScanFile final : IMkvReader {
  int Read(long long pos, long len, unsigned char* buf) override {
#ifdef VF_NATIVE
    if (g_scan_error) return -1;
    for (long i = 0; i < len; ++i) {
      long long o = pos + i - g_junk;
      if (pos < 0 || o >= (long long)sizeof kTiny) return -1;
      buf[i] = o < 0 ? 0x45 : kTiny[o];
    }
#else
    ENSURES(len == 1 && pos >= 0 && pos <= g_junk && pos < g_avail,
            "scans up to the first byte of the header");
    if (g_scan_error) return -1;
    *buf = pos == g_junk ? 0x1A : 0x45;
#endif
    return 0;
  }
  int Length(long long* total, long long* avail) override {
    *total = -1;
    *avail = g_avail;
    return 0;
  }
};
static ScanFile g_scan;
static long long ScanIDC(IMkvReader*, long long pos, long& len) {
  g_found = pos;
  len = 1;
  return kInvalid;
}
VF_CONTRACT(scan, id, &ReadID, &ScanIDC)
//@ proof ebml_header_scan functions=EBMLHeader::Parse contracts=scan unwind=1030 unwind_cap=1200 bound="1024 bytes before the header"
VF_PROOF(ebml_header_scan) {
  g_junk = 1024;
  g_avail = g_junk + (long long)sizeof kTiny;
  EBMLHeader& h = *new EBMLHeader();
  long long pos = vf_nondet_i64();
  long long r = h.Parse(&g_scan, pos);
#ifdef VF_NATIVE
  ENSURES((r == 0) == (g_junk <= 1024 && !g_scan_error),
          "found behind up to 1024 other bytes");
#else
  ENSURES(r < 0, "nothing is accepted without the ID of the header");
  if (g_scan_error) return;
  if (g_junk <= 1024)
    ENSURES(g_found == g_junk, "found behind up to 1024 other bytes");
#endif
}
