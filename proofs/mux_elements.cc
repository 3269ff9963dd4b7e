//@ file property=C02 src=mkv unwind=12 solver=cadical contracts=enc replace=strlen=vf_model_strlen,rand_r=vf_model_rand_r
// Every composite element the muxer writes: declared sizes, contents, nesting.
#include "mux_common.h"

// Strings of up to 2^15-1 bytes.  SPLIT elements are decided in two steps: the
// wide proof shows that whatever is accepted is written correctly, and the
// _live proof, with restricted lengths, that a valid configuration is accepted
// (the sums of many symbolic lengths are what is hard there).
static unsigned kStr = 15, kLen = 15, kPriv = 24;
static bool g_split = false, g_live = false;
// Two proofs per element: NAME on a logging writer, NAME_fail on a failing one.
#define ELEMENT(name)                  \
  static void Body_##name(LW& w);      \
  VF_PROOF(name) {                     \
    LW w;                              \
    w.Log();                           \
    Body_##name(w);                    \
  }                                    \
  VF_PROOF(name##_fail) {              \
    LW w;                              \
    w.Failing();                       \
    Body_##name(w);                    \
  }                                    \
  static void Body_##name(LW& w)
#define SPLIT(name)                    \
  static void Body_##name(LW& w);      \
  VF_PROOF(name) {                     \
    LW w;                              \
    w.Log();                           \
    g_split = true;                    \
    Body_##name(w);                    \
  }                                    \
  VF_PROOF(name##_fail) {              \
    LW w;                              \
    w.Failing();                       \
    g_split = true;                    \
    Body_##name(w);                    \
  }                                    \
  VF_PROOF(name##_live) {              \
    LW w;                              \
    w.Count();                         \
    g_live = true;                     \
    kStr = kLen = kPriv = 1;           \
    g_full = vf_nondet_u32();          \
    Body_##name(w);                    \
  }                                    \
  static void Body_##name(LW& w)
// ---- contracts of elements used inside containers ---------------------------
// Size() is some number s >= 2 (a fixed function of the object) and Write()
// writes one element of s bytes or fails with the writer; each is proved for
// the element itself below (NAME, NAME_fail).
#ifndef VF_NATIVE
template <class T>
static uint64_t vf_osize[4];
template <class T>
static unsigned OIndex(const T* p) {
  for (unsigned i = 0; i < 4; ++i)
    if (p == &vf_pool<T>[i].v) return i;
  vf_assert(false, "unknown object");
  return 0;
}
template <class T>
static void Opaque(T* p) {
  uint64_t s = vf_havoc_u64() & 0xfff;
  vf_assume(s >= 2);
  vf_osize<T>[OIndex(p)] = s;
}
template <class T>
static uint64_t OSize(const T* p) {
  return vf_osize<T>[OIndex(p)];
}
template <class T, uint64_t ID>
static bool OWrite(const T* p, IMkvWriter* w) {
  return static_cast<LW*>(w)->Opaque(ID, OSize(p));
}
template <class T, uint64_t ID>
static uint64_t OWriteSize(const T* p, IMkvWriter* w) {
  if (w && !static_cast<LW*>(w)->Opaque(ID, OSize(p))) return 0;
  return OSize(p);
}
#define OPQ_SW(tag, T, ID)                                              \
  VF_CONTRACT(tag, size_##tag, &T::Size, &OSize<T>)                     \
  static bool W_##tag(const T* p, IMkvWriter* w) { return OWrite<T, ID>(p, w); } \
  VF_CONTRACT(tag, write_##tag, &T::Write, &W_##tag)
#define OPQ_W(tag, T, F, ID)                                                 \
  static uint64_t W_##tag(const T* p, IMkvWriter* w) {                       \
    return OWriteSize<T, ID>(p, w);                                          \
  }                                                                          \
  VF_CONTRACT(tag, write_##tag, &T::F, &W_##tag)
OPQ_SW(ocue, CuePoint, 0xBB)
OPQ_SW(oenc, ContentEncoding, 0x6240)
OPQ_W(odisp, Chapter::Display, WriteDisplay, 0x80)
OPQ_W(oatom, Chapter, WriteAtom, 0xB6)
OPQ_W(ostag, Tag::SimpleTag, Write, 0x67C8)
OPQ_W(otag, Tag, Write, 0x7373)
#else
template <class T>
static void Opaque(T*) {}
#endif
// An integer field.  In a _live proof one arbitrary field takes any value and
// the others 0 or 1.
static unsigned g_full = 0, g_field = 0;
static uint64_t U64() {
  uint64_t v = vf_nondet_u64();
  if (g_live && g_field++ != g_full) v &= 1;
  return v;
}
static float AnyFloat() {
  float f = vf_nondet_f32();
  REQUIRES(f == f);
  return f;
}
// Common postcondition: the writer's failure is reported; a valid
// configuration is written, completely, in the predicted size.
static void End(LW& w, bool ok, bool valid, uint64_t size) {
  if (w.failed) {
    ENSURES(!ok, "a failed write is reported");
    return;
  }
  if (g_split)
    ENSURES(!ok || valid, "an invalid configuration is refused");
  else
    ENSURES(ok == valid,
            "a valid configuration is written, another is refused");
  if (!ok) return;
  if (w.log) {
    w.Finish();
    ENSURES(w.n == size, "bytes written = predicted size");
  }
  vf_cover(true, "successful write");
}

//@ proof ebml_header functions=WriteEbmlHeader
//@ proof ebml_header_fail functions=WriteEbmlHeader
ELEMENT(ebml_header) {
  const char* doc = vf_string_bits(kStr);
  uint64_t ver = vf_nondet_u64();
  bool ok = WriteEbmlHeader(&w, ver, doc);
  End(w, ok, true, w.n);
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x1A45DFA3, 1);
  e.U(0x4286, true, 1);
  e.U(0x42F7, true, 1);
  e.U(0x42F2, true, 4);
  e.U(0x42F3, true, 8);
  e.S(0x4282, doc);
  e.U(0x4287, true, ver);
  e.U(0x4285, true, 2);
  e.Done();
}

//@ proof cue_point functions=CuePoint::Write,CuePoint::Size
//@ proof cue_point_fail functions=CuePoint::Write,CuePoint::Size
ELEMENT(cue_point) {
  CuePoint* c = Make<CuePoint>();
  uint64_t time = vf_nondet_u64(), track = vf_nondet_u64(),
           pos = vf_nondet_u64(), block = vf_nondet_u64();
  bool out = vf_nondet_bool();
  c->set_time(time);
  c->set_track(track);
  c->set_cluster_pos(pos);
  c->set_block_number(block);
  c->set_output_block_number(out);
  bool ok = c->Write(&w);
  End(w, ok, track >= 1 && pos >= 1, c->Size());
  ENSURES(!c->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0xBB, 1);
  e.U(0xB3, true, time);
  e.N(0xB7, 1);
  e.U(0xF7, true, track);
  e.U(0xF1, true, pos);
  e.U(0x5378, out && block > 1, block);
  e.Done();
}

//@ proof cues contracts=enc,ocue kind=bounded bound="at most 3 cue points" functions=Cues::Write,Cues::Size,Cues::AddCue
//@ proof cues_fail contracts=enc,ocue kind=bounded bound="at most 3 cue points" functions=Cues::Write,Cues::Size,Cues::AddCue
ELEMENT(cues) {
  Cues* cs = Make<Cues>();
  bool out = vf_nondet_bool();
  cs->set_output_block_number(out);
  unsigned n = (unsigned)vf_range(0, 3);
  CuePoint* c[3];
  for (unsigned i = 0; i < 3; ++i) {
    if (i >= n) break;
    c[i] = Make<CuePoint>();
    Opaque(c[i]);
    c[i]->set_time(vf_nondet_u64());
    c[i]->set_track(vf_range(1, 126));
    c[i]->set_cluster_pos(vf_range(1, ~0ull));
    if (!cs->AddCue(c[i])) return;  // out of memory
    ENSURES(c[i]->output_block_number() == out, "cue inherits the setting");
    for (unsigned j = 0; j <= i; ++j)
      ENSURES(cs->GetCueByIndex(j) == c[j], "cues are kept in order");
  }
  ENSURES(cs->cue_entries_size() == (int)n, "cue count");
  bool ok = cs->Write(&w);
  End(w, ok, true, cs->Size());
  ENSURES(!cs->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x1C53BB6B, 1);
  e.N(0xBB, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}

// ---- content encoding --------------------------------------------------------
static ContentEncoding* AnyEncoding(bool with_id) {
  ContentEncoding* c = Make<ContentEncoding>();
  c->enc_algo_ = vf_nondet_u64();
  c->encoding_order_ = vf_nondet_u64();
  c->encoding_scope_ = vf_nondet_u64();
  c->encoding_type_ = vf_nondet_u64();
  c->enc_aes_settings_.cipher_mode_ = vf_nondet_u64();
  if (with_id) {
    c->enc_key_id_length_ = Bits(kLen);
    REQUIRES(c->enc_key_id_length_ > 0);
    c->enc_key_id_ = (uint8_t*)vf_alloc(c->enc_key_id_length_);
  }
  return c;
}
//@ proof content_encoding functions=ContentEncoding::Write,ContentEncoding::Size,ContentEncAESSettings::Write
//@ proof content_encoding_fail functions=ContentEncoding::Write,ContentEncoding::Size,ContentEncAESSettings::Write
ELEMENT(content_encoding) {
  bool id = vf_nondet_bool();
  ContentEncoding* c = AnyEncoding(id);
  bool ok = c->Write(&w);
  End(w, ok, id, c->Size());
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x6240, 1);
  e.U(0x5031, true, c->encoding_order());
  e.U(0x5032, true, c->encoding_scope());
  e.U(0x5033, true, c->encoding_type());
  e.N(0x5035, 1);
  e.U(0x47E1, true, c->enc_algo());
  e.B(0x47E2, true, c->enc_key_id_, c->enc_key_id_length_);
  e.N(0x47E7, 1);
  e.U(0x47E8, true, c->enc_aes_settings_.cipher_mode());
  e.Done();
}
//@ proof set_encryption_id kind=bounded bound="IDs of at most 8 bytes" functions=ContentEncoding::SetEncryptionID
VF_PROOF(set_encryption_id) {
  ContentEncoding* c = Make<ContentEncoding>();
  uint64_t n = vf_range(0, 8);
  uint8_t* p = vf_nondet_bool() ? (uint8_t*)vf_alloc(n) : nullptr;
  for (int r = 0; r < 2; ++r) {
    bool ok = c->SetEncryptionID(p, n);
    ENSURES(!ok || (p && n), "an empty ID is refused");
    uint64_t i = vf_nondet_u64();
    if (ok && i < n)
      ENSURES(c->enc_key_id_length_ == n && c->enc_key_id_[i] == p[i] &&
                  c->enc_key_id_ != p,
              "a copy of the ID is kept");
  }
}

// ---- colour --------------------------------------------------------------------
static PrimaryChromaticity* AnyChroma() {
  if (!vf_nondet_bool()) return nullptr;
  float x = AnyFloat(), y = AnyFloat();
  return Make<PrimaryChromaticity>(x, y);
}
static bool ChromaOk(const PrimaryChromaticity* p) {
  return !p || (p->x() >= 0 && p->x() <= 1 && p->y() >= 0 && p->y() <= 1);
}
static MasteringMetadata* AnyMastering() {
  MasteringMetadata* m = Make<MasteringMetadata>();
  m->set_luminance_max(AnyFloat());
  m->set_luminance_min(AnyFloat());
  m->r_ = AnyChroma();
  m->g_ = AnyChroma();
  m->b_ = AnyChroma();
  m->white_point_ = AnyChroma();
  return m;
}
static bool MasteringChromaOk(const MasteringMetadata* m) {
  return ChromaOk(m->r()) && ChromaOk(m->g()) && ChromaOk(m->b()) &&
         ChromaOk(m->white_point());
}
static bool HasMax(const MasteringMetadata* m) {
  return m->luminance_max() != FLT_MAX;
}
static bool HasMin(const MasteringMetadata* m) {
  return m->luminance_min() != FLT_MAX;
}
static bool MasteringEmpty(const MasteringMetadata* m) {
  return !HasMax(m) && !HasMin(m) && !m->r() && !m->g() && !m->b() &&
         !m->white_point();
}
// each bound applies to the values that are present
static bool MasteringOk(const MasteringMetadata* m) {
  if (HasMax(m) && !(m->luminance_max() >= 0 && m->luminance_max() <= 9999.99f))
    return false;
  if (HasMin(m) && !(m->luminance_min() >= 0 && m->luminance_min() <= 999.99f))
    return false;
  if (HasMax(m) && HasMin(m) && m->luminance_min() > m->luminance_max())
    return false;
  return MasteringChromaOk(m);
}
static void ExpMastering(Exp& e, const MasteringMetadata* m) {
  e.N(0x55D0, m && !MasteringEmpty(m));
  if (!m) return;
  e.F(0x55D9, HasMax(m), m->luminance_max());
  e.F(0x55DA, HasMin(m), m->luminance_min());
  e.F(0x55D1, m->r(), m->r() ? m->r()->x() : 0);
  e.F(0x55D2, m->r(), m->r() ? m->r()->y() : 0);
  e.F(0x55D3, m->g(), m->g() ? m->g()->x() : 0);
  e.F(0x55D4, m->g(), m->g() ? m->g()->y() : 0);
  e.F(0x55D5, m->b(), m->b() ? m->b()->x() : 0);
  e.F(0x55D6, m->b(), m->b() ? m->b()->y() : 0);
  e.F(0x55D7, m->white_point(), m->white_point() ? m->white_point()->x() : 0);
  e.F(0x55D8, m->white_point(), m->white_point() ? m->white_point()->y() : 0);
}
//@ proof mastering functions=MasteringMetadata::Write,MasteringMetadata::MasteringMetadataSize,MasteringMetadata::Valid,PrimaryChromaticity::Write
//@ proof mastering_fail functions=MasteringMetadata::Write,MasteringMetadata::MasteringMetadataSize,MasteringMetadata::Valid,PrimaryChromaticity::Write
ELEMENT(mastering) {
  MasteringMetadata* m = AnyMastering();
  ENSURES(m->Valid() == MasteringOk(m), "validity of mastering metadata");
  bool ok = m->Write(&w);
  End(w, ok, MasteringChromaOk(m), m->MasteringMetadataSize());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpMastering(e, m);
  e.Done();
}
static uint64_t Opt() { return vf_nondet_bool() ? vf_nondet_u64() : ~0ull; }
static Colour* AnyColour(MasteringMetadata* m) {
  Colour* c = Make<Colour>();
  c->set_matrix_coefficients(Opt());
  c->set_bits_per_channel(Opt());
  c->set_chroma_subsampling_horz(Opt());
  c->set_chroma_subsampling_vert(Opt());
  c->set_cb_subsampling_horz(Opt());
  c->set_cb_subsampling_vert(Opt());
  c->set_chroma_siting_horz(Opt());
  c->set_chroma_siting_vert(Opt());
  c->set_range(Opt());
  c->set_transfer_characteristics(Opt());
  c->set_primaries(Opt());
  c->set_max_cll(Opt());
  c->set_max_fall(Opt());
  c->mastering_metadata_ = m;
  return c;
}
// ISO/IEC 23001-8 / Matroska value ranges
static bool ColourOk(const Colour* c) {
  uint64_t v = c->matrix_coefficients();
  if (v != ~0ull && v > 10) return false;
  v = c->chroma_siting_horz();
  if (v != ~0ull && v > 2) return false;
  v = c->chroma_siting_vert();
  if (v != ~0ull && v > 2) return false;
  v = c->range();
  if (v != ~0ull && v > 3) return false;
  v = c->transfer_characteristics();
  if (v != ~0ull && (v < 1 || v > 18)) return false;
  v = c->primaries();
  if (v != ~0ull && v > 10 && v != 22) return false;
  return true;
}
static bool ColourEmpty(const Colour* c) {
  return (c->matrix_coefficients() & c->bits_per_channel() &
          c->chroma_subsampling_horz() & c->chroma_subsampling_vert() &
          c->cb_subsampling_horz() & c->cb_subsampling_vert() &
          c->chroma_siting_horz() & c->chroma_siting_vert() & c->range() &
          c->transfer_characteristics() & c->primaries() & c->max_cll() &
          c->max_fall()) == ~0ull &&
         (!c->mastering_metadata() || MasteringEmpty(c->mastering_metadata()));
}
static void ExpColour(Exp& e, const Colour* c) {
  e.N(0x55B0, c && !ColourEmpty(c));
  if (!c) return;
#define F(id, m) e.U(id, c->m() != ~0ull, c->m())
  F(0x55B1, matrix_coefficients);
  F(0x55B2, bits_per_channel);
  F(0x55B3, chroma_subsampling_horz);
  F(0x55B4, chroma_subsampling_vert);
  F(0x55B5, cb_subsampling_horz);
  F(0x55B6, cb_subsampling_vert);
  F(0x55B7, chroma_siting_horz);
  F(0x55B8, chroma_siting_vert);
  F(0x55B9, range);
  F(0x55BA, transfer_characteristics);
  F(0x55BB, primaries);
  F(0x55BC, max_cll);
  F(0x55BD, max_fall);
#undef F
  ExpMastering(e, c->mastering_metadata());
}
//@ proof colour functions=Colour::Write,Colour::ColourSize,Colour::Valid,IsMatrixCoefficientsValueValid,IsChromaSitingHorzValueValid,IsChromaSitingVertValueValid,IsColourRangeValueValid,IsTransferCharacteristicsValueValid,IsPrimariesValueValid
//@ proof colour_fail functions=Colour::Write,Colour::ColourSize,Colour::Valid,IsMatrixCoefficientsValueValid,IsChromaSitingHorzValueValid,IsChromaSitingVertValueValid,IsColourRangeValueValid,IsTransferCharacteristicsValueValid,IsPrimariesValueValid
ELEMENT(colour) {
  MasteringMetadata* m = nullptr;
  if (vf_nondet_bool()) {
    m = Make<MasteringMetadata>();
    m->set_luminance_max(AnyFloat());
    m->set_luminance_min(AnyFloat());
    m->g_ = AnyChroma();
  }
  Colour* c = AnyColour(m);
  bool valid = ColourOk(c) && (!m || MasteringOk(m));
  ENSURES(c->Valid() == valid, "validity of colour metadata");
  bool ok = c->Write(&w);
  End(w, ok, valid || ColourEmpty(c), c->ColourSize());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpColour(e, c);
  e.Done();
}

static Projection* AnyProjection() {
  Projection* p = Make<Projection>();
  p->type_ = (Projection::ProjectionType)vf_range(0, 3);
  p->set_pose_yaw(AnyFloat());
  p->set_pose_pitch(AnyFloat());
  p->set_pose_roll(AnyFloat());
  if (vf_nondet_bool()) {
    p->private_data_length_ = Bits(kLen);
    p->private_data_ = (uint8_t*)vf_alloc(p->private_data_length_);
  }
  return p;
}
static void ExpProjection(Exp& e, const Projection* p) {
  e.N(0x7670, p != nullptr);
  if (!p) return;
  e.U(0x7671, true, p->type());
  e.B(0x7672, p->private_data() && p->private_data_length(), p->private_data(),
      p->private_data_length());
  e.F(0x7673, true, p->pose_yaw());
  e.F(0x7674, true, p->pose_pitch());
  e.F(0x7675, true, p->pose_roll());
}
//@ proof projection functions=Projection::Write,Projection::ProjectionSize
//@ proof projection_fail functions=Projection::Write,Projection::ProjectionSize
ELEMENT(projection) {
  Projection* p = AnyProjection();
  bool ok = p->Write(&w);
  End(w, ok, true, p->ProjectionSize());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpProjection(e, p);
  e.Done();
}

// ---- tracks --------------------------------------------------------------------
static char* PlainCodecId() {
  char* s = vf_string_bits(7);
  if (vf_strs.n[vf_strs.count - 1]) s[0] = 'x';
  return s;
}
static char* AnyCodecId(bool* av1) {
  *av1 = vf_nondet_bool();
  uint64_t len = Bits(7);
  if (*av1) len = 5;
  char* s = vf_string_len(len);
  if (*av1)
    memcpy(s, "V_AV1", 5);
  else if (len)
    s[0] = 'x';
  return vf_nondet_bool() ? s : nullptr;
}
static void FillTrack(Track* t, bool* av1) {
  t->codec_id_ = AnyCodecId(av1);
  if (vf_nondet_bool()) {
    t->codec_private_length_ = Bits(kPriv);
    REQUIRES(t->codec_private_length_ > 0);
    t->codec_private_ = (uint8_t*)vf_alloc(t->codec_private_length_);
  }
  t->language_ = vf_opt_string(kStr);
  t->name_ = vf_opt_string(kStr);
  t->set_max_block_additional_id(U64());
  t->set_number(U64());
  t->set_type(U64());
  t->set_uid(U64());
  t->set_codec_delay(U64());
  t->set_seek_pre_roll(U64());
  t->set_default_duration(U64());
}
static bool TrackOk(const Track* t, bool av1) {
  return t->type() && t->codec_id() && (!av1 || t->codec_private());
}
static void ExpTrack(Exp& e, const Track* t) {
  e.N(0xAE, 1);
  e.U(0xD7, true, t->number());
  e.U(0x73C5, true, t->uid());
  e.U(0x83, true, t->type());
  e.U(0x55EE, t->max_block_additional_id() != 0, t->max_block_additional_id());
  e.U(0x56AA, t->codec_delay() != 0, t->codec_delay());
  e.U(0x56BB, t->seek_pre_roll() != 0, t->seek_pre_roll());
  e.U(0x23E383, t->default_duration() != 0, t->default_duration());
  e.S(0x86, t->codec_id());
  e.B(0x63A2, t->codec_private() != nullptr, t->codec_private(),
      t->codec_private_length());
  e.S(0x22B59C, t->language());
  e.S(0x536E, t->name());
}
static ContentEncoding* g_enc[2];
static void AddEncodings(Track* t) {
  unsigned n = (unsigned)vf_range(0, 2);
  t->content_encoding_entries_size_ = n;
  if (!n) return;
  for (unsigned i = 0; i < 2; ++i)
    if (i < n) Opaque(g_enc[i] = AnyEncoding(true));
  t->content_encoding_entries_ = g_enc;
}
static void ExpEncodings(Exp& e, const Track* t) {
  unsigned n = t->content_encoding_entries_size();
  e.N(0x6D80, n > 0);
  e.N(0x6240, n);
}
//@ proof track weight=5 functions=Track::Write,Track::Size,Track::PayloadSize
//@ proof track_fail weight=5 functions=Track::Write,Track::Size,Track::PayloadSize
//@ proof track_live kind=bounded bound="acceptance only: lengths of 0 or 1, integer fields 0 or 1 but for one of any value" weight=5 functions=Track::Write,Track::Size,Track::PayloadSize
SPLIT(track) {
  unsigned seed = 1;
  Track* t = Make<Track>(&seed);
  bool av1;
  FillTrack(t, &av1);
  bool ok = t->Write(&w);
  End(w, ok, TrackOk(t, av1), t->Size());
  ENSURES(!t->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  ExpTrack(e, t);
  e.Done();
}
//@ proof track_encodings contracts=enc,oenc kind=bounded bound="at most 2 content encodings" functions=Track::Write,Track::PayloadSize
//@ proof track_encodings_fail contracts=enc,oenc kind=bounded bound="at most 2 content encodings" functions=Track::Write,Track::PayloadSize
//@ proof track_encodings_live contracts=enc,oenc kind=bounded bound="acceptance only: lengths of 0 or 1, integer fields 0 or 1 but for one of any value; at most 2 content encodings" functions=Track::Write,Track::PayloadSize
SPLIT(track_encodings) {
  unsigned seed = 1;
  Track* t = Make<Track>(&seed);
  t->codec_id_ = vf_string_len(3);
  t->codec_id_[0] = 'x';
  t->set_type(1);
  AddEncodings(t);
  bool ok = t->Write(&w);
  End(w, ok, true, t->Size());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpTrack(e, t);
  ExpEncodings(e, t);
#ifndef VF_NATIVE
  e.Done();
#endif
}
//@ proof video_track weight=5 functions=VideoTrack::Write,VideoTrack::PayloadSize,VideoTrack::VideoPayloadSize
//@ proof video_track_fail weight=5 functions=VideoTrack::Write,VideoTrack::PayloadSize,VideoTrack::VideoPayloadSize
//@ proof video_track_live kind=bounded bound="acceptance only: lengths of 0 or 1, integer fields 0 or 1 but for one of any value" weight=5 functions=VideoTrack::Write,VideoTrack::PayloadSize,VideoTrack::VideoPayloadSize
SPLIT(video_track) {
  unsigned seed = 1;
  VideoTrack* t = Make<VideoTrack>(&seed);
  t->codec_id_ = PlainCodecId();
  t->set_type(1);
  t->set_display_height(U64());
  t->set_display_width(U64());
  t->set_pixel_height(U64());
  t->set_pixel_width(U64());
  t->set_crop_left(U64());
  t->set_crop_right(U64());
  t->set_crop_top(U64());
  t->set_crop_bottom(U64());
  t->set_width(U64());
  t->set_height(U64());
  uint64_t sm = vf_nondet_u64(), am = vf_nondet_u64();
  bool sok = t->SetStereoMode(sm), aok = t->SetAlphaMode(am);
  ENSURES(sok == (sm <= 3 || sm == 11), "stereo modes");
  ENSURES(aok == (am <= 1), "alpha modes");
  double fr = vf_nondet_f64();
  REQUIRES(fr >= 0 && fr <= 1e6);
  t->set_frame_rate(fr);
  t->colour_space_ = vf_opt_string(kStr);
  if (vf_nondet_bool()) {
    t->colour_ = Make<Colour>();
    t->colour_->set_range(Opt());
    t->colour_->set_max_cll(Opt());
  }
  if (vf_nondet_bool()) t->projection_ = AnyProjection();
  bool ok = t->Write(&w);
  End(w, ok, !t->colour_ || ColourOk(t->colour_), t->Size());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpTrack(e, t);
  e.N(0xE0, 1);
  e.U(0xB0, true, t->pixel_width() > 0 ? t->pixel_width() : t->width());
  e.U(0xBA, true, t->pixel_height() > 0 ? t->pixel_height() : t->height());
  e.U(0x54B0, t->display_width() > 0, t->display_width());
  e.U(0x54BA, t->display_height() > 0, t->display_height());
  e.U(0x54CC, t->crop_left() > 0, t->crop_left());
  e.U(0x54DD, t->crop_right() > 0, t->crop_right());
  e.U(0x54BB, t->crop_top() > 0, t->crop_top());
  e.U(0x54AA, t->crop_bottom() > 0, t->crop_bottom());
  e.U(0x53B8, sok && sm > 0, sm);
  e.U(0x53C0, aok && am > 0, am);
  e.S(0x2EB524, t->colour_space_);
  e.F(0x2383E3, fr > 0, (float)fr);
  ExpColour(e, t->colour_);
  ExpProjection(e, t->projection_);
  e.Done();
}
//@ proof audio_track functions=AudioTrack::Write,AudioTrack::PayloadSize
//@ proof audio_track_fail functions=AudioTrack::Write,AudioTrack::PayloadSize
ELEMENT(audio_track) {
  unsigned seed = 1;
  AudioTrack* t = Make<AudioTrack>(&seed);
  t->codec_id_ = PlainCodecId();
  t->set_type(2);
  t->set_bit_depth(U64());
  t->set_channels(U64());
  double sr = vf_nondet_f64();
  REQUIRES(sr >= 0 && sr <= 1e9);
  t->set_sample_rate(sr);
  bool ok = t->Write(&w);
  End(w, ok, true, t->Size());
  if (!ok || !w.log) return;
  Exp e(w);
  ExpTrack(e, t);
  e.N(0xE1, 1);
  e.F(0xB5, true, (float)sr);
  e.U(0x9F, true, t->channels());
  e.U(0x6264, t->bit_depth() > 0, t->bit_depth());
  e.Done();
}
// any track: Size() and Write() as the Track contract says
struct AnyTrack : Track {
  explicit AnyTrack(unsigned* seed) : Track(seed) {}
  uint64_t size = 0;
  bool valid = true;
#ifndef VF_NATIVE
  uint64_t Size() const override { return size; }
  bool Write(IMkvWriter* w) const override {
    return valid && static_cast<LW*>(w)->Opaque(0xAE, size);
  }
#endif
};
//@ proof tracks kind=bounded bound="2 tracks" functions=Tracks::Write
//@ proof tracks_fail kind=bounded bound="2 tracks" functions=Tracks::Write
ELEMENT(tracks) {
  unsigned seed = 1;
  Tracks* ts = Make<Tracks>();
  static Track* list[2];
  const unsigned n = 2;
  bool valid = true;
  uint64_t size = 0;
  for (unsigned i = 0; i < 2; ++i) {
    AnyTrack* t = Make<AnyTrack>(&seed);
#ifdef VF_NATIVE
    t->set_type(1);
    t->codec_id_ = vf_string_len(3);
#else
    t->size = 2 + (vf_havoc_u64() & 0xfff);
#endif
    t->valid = vf_nondet_bool();
#ifdef VF_NATIVE
    if (!t->valid) t->codec_id_ = nullptr;
#endif
    list[i] = t;
    valid = valid && t->valid;
    size += t->Size();
  }
  ts->track_entries_ = n ? list : nullptr;
  ts->track_entries_size_ = n;
  bool ok = ts->Write(&w);
  End(w, ok, valid, spec::HeaderLen(0x1654AE6B, size) + size);
  ENSURES(ok || !ts->wrote_tracks_, "tracks are marked written only if so");
  if (!ok || !w.log) return;
  ENSURES(ts->wrote_tracks_, "no track can be added after the tracks are written");
  Exp e(w);
  e.N(0x1654AE6B, 1);
  e.N(0xAE, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}

// ---- chapters, tags ------------------------------------------------------------
static Chapter::Display g_disp[2];
static void FillDisplay(Chapter::Display* d) {
  d->title_ = vf_opt_string(kStr);
  d->language_ = vf_opt_string(kStr);
  d->country_ = vf_opt_string(kStr);
}
//@ proof chapter_display functions=Chapter::Display::WriteDisplay
//@ proof chapter_display_fail functions=Chapter::Display::WriteDisplay
ELEMENT(chapter_display) {
  Chapter::Display* d = g_disp;
  FillDisplay(d);
  uint64_t r = d->WriteDisplay(&w);
  End(w, r != 0, d->title_ != nullptr, d->WriteDisplay(nullptr));
  if (!r || !w.log) return;
  ENSURES(r == w.n, "returns the bytes written");
  Exp e(w);
  e.N(0x80, 1);
  e.S(0x85, d->title_);
  e.S(0x437C, d->language_);
  e.S(0x437E, d->country_);
  e.Done();
}
static void FillChapter(Chapter* c) {
  unsigned seed = 1;
  c->Init(&seed);
  c->id_ = vf_opt_string(kStr);
  c->start_timecode_ = vf_nondet_u64();
  c->end_timecode_ = vf_nondet_u64();
  c->uid_ = vf_nondet_u64();
}
// contiguous array of pool objects
template <class T>
static T* Array() {
  return &vf_pool<T>[0].v;
}
//@ proof chapter_atom contracts=enc,odisp kind=bounded bound="at most 3 displays per chapter" functions=Chapter::WriteAtom
//@ proof chapter_atom_fail contracts=enc,odisp kind=bounded bound="at most 3 displays per chapter" functions=Chapter::WriteAtom
ELEMENT(chapter_atom) {
  Chapter* c = Make<Chapter>();
  FillChapter(c);
  unsigned n = (unsigned)vf_range(0, 3);
  c->displays_ = Array<Chapter::Display>();
  c->displays_count_ = c->displays_size_ = n;
  for (unsigned i = 0; i < 3; ++i) {
    if (i >= n) break;
    Chapter::Display* d = Make<Chapter::Display>();
    Opaque(d);
    d->title_ = vf_string_len(4);
    d->language_ = d->country_ = nullptr;
  }
  uint64_t r = c->WriteAtom(&w);
  End(w, r != 0, c->id_ != nullptr, c->WriteAtom(nullptr));
  if (!r || !w.log) return;
  ENSURES(r == w.n, "returns the bytes written");
  Exp e(w);
  e.N(0xB6, 1);
  e.S(0x5654, c->id_);
  e.U(0x73C4, true, c->uid_);
  e.U(0x91, true, c->start_timecode_);
  e.U(0x92, true, c->end_timecode_);
  e.N(0x80, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}
//@ proof chapters contracts=enc,oatom kind=bounded bound="at most 3 chapters" functions=Chapters::Write,Chapters::WriteEdition
//@ proof chapters_fail contracts=enc,oatom kind=bounded bound="at most 3 chapters" functions=Chapters::Write,Chapters::WriteEdition
ELEMENT(chapters) {
  Chapters* cs = Make<Chapters>();
  unsigned n = (unsigned)vf_range(0, 3);
  cs->chapters_ = Array<Chapter>();
  cs->chapters_count_ = cs->chapters_size_ = n;
  for (unsigned i = 0; i < 3; ++i) {
    if (i >= n) break;
    Chapter* c = Make<Chapter>();
    Opaque(c);
    c->id_ = vf_string_len(3);
  }
  bool ok = cs->Write(&w);
  End(w, ok, true, w.n);
  ENSURES(!cs->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x1043A770, 1);
  e.N(0x45B9, 1);
  e.N(0xB6, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}
static Tag::SimpleTag g_st[2];
static void FillSimpleTag(Tag::SimpleTag* t) {
  t->tag_name_ = vf_opt_string(kStr);
  t->tag_string_ = vf_opt_string(kStr);
}
//@ proof simple_tag functions=Tag::SimpleTag::Write
//@ proof simple_tag_fail functions=Tag::SimpleTag::Write
ELEMENT(simple_tag) {
  Tag::SimpleTag* t = g_st;
  FillSimpleTag(t);
  uint64_t r = t->Write(&w);
  End(w, r != 0, t->tag_name_ && t->tag_string_, t->Write(nullptr));
  if (!r || !w.log) return;
  ENSURES(r == w.n, "returns the bytes written");
  Exp e(w);
  e.N(0x67C8, 1);
  e.S(0x45A3, t->tag_name_);
  e.S(0x4487, t->tag_string_);
  e.Done();
}
//@ proof tag contracts=enc,ostag kind=bounded bound="at most 3 simple tags per tag" functions=Tag::Write
//@ proof tag_fail contracts=enc,ostag kind=bounded bound="at most 3 simple tags per tag" functions=Tag::Write
ELEMENT(tag) {
  Tag* t = Make<Tag>();
  unsigned n = (unsigned)vf_range(0, 3);
  t->simple_tags_ = Array<Tag::SimpleTag>();
  t->simple_tags_count_ = t->simple_tags_size_ = n;
  for (unsigned i = 0; i < 3; ++i) {
    if (i >= n) break;
    Tag::SimpleTag* s = Make<Tag::SimpleTag>();
    Opaque(s);
    s->tag_name_ = vf_string_len(3);
    s->tag_string_ = vf_string_len(5);
  }
  uint64_t r = t->Write(&w);
  End(w, r != 0, true, t->Write(nullptr));
  if (!r || !w.log) return;
  ENSURES(r == w.n, "returns the bytes written");
  Exp e(w);
  e.N(0x7373, 1);
  e.N(0x67C8, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}
//@ proof tags contracts=enc,otag kind=bounded bound="at most 3 tags" functions=Tags::Write
//@ proof tags_fail contracts=enc,otag kind=bounded bound="at most 3 tags" functions=Tags::Write
ELEMENT(tags) {
  Tags* ts = Make<Tags>();
  unsigned n = (unsigned)vf_range(0, 3);
  ts->tags_ = Array<Tag>();
  ts->tags_count_ = ts->tags_size_ = n;
  for (unsigned i = 0; i < 3; ++i) {
    if (i >= n) break;
    Opaque(Make<Tag>());
  }
  bool ok = ts->Write(&w);
  End(w, ok, true, w.n);
  ENSURES(!ts->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x1254C367, 1);
  e.N(0x7373, n);
#ifndef VF_NATIVE
  e.Done();
#endif
}

// ---- segment information -------------------------------------------------------
//@ proof segment_info functions=SegmentInfo::Write
//@ proof segment_info_fail functions=SegmentInfo::Write
ELEMENT(segment_info) {
  SegmentInfo* s = Make<SegmentInfo>();
  s->set_timecode_scale(vf_nondet_u64());
  double d = vf_nondet_f64();
  REQUIRES(d >= -1 && d <= 1e30);
  s->set_duration(d);
  int64_t date = vf_nondet_i64();
  s->set_date_utc(date);
  s->muxing_app_ = vf_opt_string(kStr);
  s->writing_app_ = vf_opt_string(kStr);
  bool ok = s->Write(&w);
  End(w, ok, s->muxing_app_ && s->writing_app_, w.n);
  ENSURES(!s->Write(nullptr), "null writer is rejected");
  if (!ok || !w.log) return;
  Exp e(w);
  e.N(0x1549A966, 1);
  e.U(0x2AD7B1, true, s->timecode_scale());
  e.F(0x4489, d > 0, (float)d);
  e.U(0x4461, date != INT64_MIN, (uint64_t)date);
  if (w.wid == 0x4461 && w.count) ENSURES(w.vLen == 8, "dates take 8 octets");
  e.S(0x4D80, s->muxing_app_);
  e.S(0x5741, s->writing_app_);
  e.Done();
}
