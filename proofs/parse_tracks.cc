//@ file property=C11 src=mkv unwind=10 unwind_cap=20 contracts=dec solver=cadical cdefine=VF_NO_OOM kind=bounded bound="3 children, strings and binaries of at most 3 bytes" assume="allocations succeed in the metadata parsers"
// mkvparser: segment info and track metadata, over the contracts of the
// decoding primitives.
#include "elements.h"
using namespace el;

//@ proof segment_info functions=SegmentInfo::Parse
VF_PROOF(segment_info) {
  Begin(3, [](long long id) { return id == 0x4489; },
        [](long long id) {
          return id == 0x4D80 || id == 0x5741 || id == 0x7BA9;
        });
  SegmentInfo& i = *new SegmentInfo(Seg(), kBase, s.size, 900, 5000);
  long st = i.Parse();
  bool ok = true;
  long long scale = 1000000;
  double dur = -1;
  const Elem *mux = nullptr, *wri = nullptr, *tit = nullptr;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.id == 0x2AD7B1) {
      scale = (long long)e.u;
      if (!UintOk(e) || scale <= 0) ok = false;
    } else if (e.id == 0x4489) {
      dur = e.f;
      if (!FloatOk(e) || dur < 0) ok = false;
    } else if (e.id == 0x4D80) {
      mux = &e;
      if (e.bad) ok = false;
    } else if (e.id == 0x5741) {
      wri = &e;
      if (e.bad) ok = false;
    } else if (e.id == 0x7BA9) {
      tit = &e;
      if (e.bad) ok = false;
    }
  }
  if (!ok) ENSURES(st < 0, "malformed segment info is refused");
  if (st) {
    ENSURES(st < 0, "errors are negative");
    return;
  }
  ENSURES(i.GetTimeCodeScale() == scale, "timecode scale");
  ENSURES(OptStr(i.GetMuxingAppAsUTF8(), mux), "muxing app");
  ENSURES(OptStr(i.GetWritingAppAsUTF8(), wri), "writing app");
  ENSURES(OptStr(i.GetTitleAsUTF8(), tit), "title");
  ENSURES(i.m_duration == dur, "duration in ticks");
  vf_cover(mux && wri && tit, "all strings");
  delete &i;
}
// ---- any number of children ------------------------------------------------
static SegmentInfo* g_i;
static const char* g_s[3];
static long long g_scale = 1000000;
static double g_dur = -1;
static bool InfoInv() {
  return g_i->m_pMuxingAppAsUTF8 == g_s[0] &&
         g_i->m_pWritingAppAsUTF8 == g_s[1] && g_i->m_pTitleAsUTF8 == g_s[2] &&
         g_i->m_timecodeScale == g_scale && g_i->m_duration == g_dur &&
         g_scale > 0 && (g_dur == -1 || g_dur >= 0);
}
static void InfoAny() {
  g_s[0] = g_i->m_pMuxingAppAsUTF8 = SomeStr();
  g_s[1] = g_i->m_pWritingAppAsUTF8 = SomeStr();
  g_s[2] = g_i->m_pTitleAsUTF8 = SomeStr();
  g_scale = g_i->m_timecodeScale = (long long)vf_havoc_u64();
  uint64_t bits = vf_havoc_u64();
  memcpy(&g_dur, &bits, 8);
  g_i->m_duration = g_dur;
  REQUIRES(g_scale > 0 && (g_dur == -1 || (g_dur >= 0 && g_dur <= DBL_MAX)));
}
static bool InfoChild(const Elem& e) {
  if (e.id == 0x2AD7B1) {
    g_scale = (long long)e.u;
    return UintOk(e) && g_scale > 0;
  }
  if (e.id == 0x4489) {
    g_dur = e.f;
    return FloatOk(e) && g_dur >= 0;
  }
  if (e.id == 0x4D80) g_s[0] = st.str;
  else if (e.id == 0x5741) g_s[1] = st.str;
  else if (e.id == 0x7BA9) g_s[2] = st.str;
  else return true;
  return !e.bad;
}
//@ proof segment_info_step functions=SegmentInfo::Parse contracts=step kind=proof bound=""
VF_PROOF(segment_info_step) {
  BeginStep(InfoInv, InfoAny, InfoChild,
            [](long long id) { return id == 0x4489; });
  g_i = new SegmentInfo(Seg(), kBase, s.size, 900, 5000);
  long r = g_i->Parse();
  bool done = StepDone();
  if (!done) ENSURES(r < 0, "malformed segment info is refused");
  if (r) {
    ENSURES(r < 0, "errors are negative");
    return;
  }
  ENSURES(g_i->GetMuxingAppAsUTF8() == g_s[0] &&
              g_i->GetWritingAppAsUTF8() == g_s[1] &&
              g_i->GetTitleAsUTF8() == g_s[2] &&
              g_i->GetTimeCodeScale() == g_scale && g_i->m_duration == g_dur,
          "scale, duration and strings of the last such children");
  vf_cover(st.headers && st.str && g_i->GetTitleAsUTF8() == st.str, "title");
}
// contract of Track::Info::Copy (proved in info_copy): everything is copied,
// or the call fails
struct Copied {
  const Track::Info* from;
  const Track::Info* to;
};
static Copied g_copied;
static int InfoCopyC(const Track::Info* self, Track::Info& dst) {
  g_copied.from = self;
  g_copied.to = &dst;
  return vf_havoc_bool() ? -1 : 0;
}
VF_CONTRACT(copy, infocopy, &Track::Info::Copy, &InfoCopyC)
//@ proof segment_duration functions=SegmentInfo::Parse,SegmentInfo::GetDuration bound="1 child: a duration at the default scale"
VF_PROOF(segment_duration) {
  Begin(1, [](long long id) { return id == 0x4489; }, None, false);
  REQUIRES(s.e[0].id == 0x4489);
  SegmentInfo& i = *new SegmentInfo(Seg(), kBase, s.size, 900, 5000);
  long st = i.Parse();
  double d = s.e[0].f;
  bool ok = FloatOk(s.e[0]) && d >= 0 && d <= 9.2e12;
  if (ok) ENSURES(st == 0, "durations of up to 292 years are accepted");
  if (st) return;
  long long ns = i.GetDuration();
  ENSURES(ns >= 0, "duration in nanoseconds");
  if (d == 0.5) ENSURES(ns == 500000, "half a millisecond");
  if (d == 123456.0) ENSURES(ns == 123456000000, "two minutes");
  vf_cover(d == 123456.0, "two minutes");
}
//@ proof audio_track functions=AudioTrack::Parse contracts=dec,copy
VF_PROOF(audio_track) {
  Begin(3, [](long long id) { return id == 0xB5; }, None);
  Track::Info info;
  info.type = Track::kAudio;
  info.number = 7;
  info.settings.start = kBase;
  info.settings.size = s.size;
  AudioTrack* t = nullptr;
  long st = AudioTrack::Parse(Seg(), info, 900, 5000, t);
  bool ok = true;
  double rate = 8000;
  long long ch = 1, depth = 0;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.id == 0xB5) {
      rate = e.f;
      if (!FloatOk(e) || !(rate > 0)) ok = false;
    } else if (e.id == 0x9F) {
      ch = (long long)e.u;
      if (!UintOk(e) || ch <= 0) ok = false;
    } else if (e.id == 0x6264) {
      depth = (long long)e.u;
      if (!UintOk(e) || depth <= 0) ok = false;
    }
  }
  if (!ok) ENSURES(st < 0, "malformed audio settings are refused");
  if (ok) ENSURES(st == 0 || st == -1, "well-formed audio settings accepted");
  if (st) {
    ENSURES(st < 0 && !t, "errors are negative");
    return;
  }
  ENSURES(t->GetSamplingRate() == rate, "sampling rate");
  ENSURES(t->GetChannels() == ch, "channels");
  ENSURES(t->GetBitDepth() == depth, "bit depth");
#ifdef VF_NATIVE
  ENSURES(t->GetType() == 2 && t->GetNumber() == 7, "type and number");
#else
  ENSURES(g_copied.from == &info && g_copied.to == &t->m_info,
          "the track entry's fields are the track's");
#endif
  vf_cover(rate != 8000 && ch != 1 && depth != 0, "all present");
}
// contracts of the nested masters: the payload is the child's, and it is
// malformed or yields an object
static Colour* g_colour[kMax];
static Projection* g_proj[kMax];
static bool ColourC(IMkvReader* r, long long pos, long long size, Colour** c) {
  ENSURES(r == &g_file && *c == nullptr, "colour: reader and result");
  if (!Payload(pos, size)) return false;
  *c = g_colour[s.k - 1] = new Colour();
  return true;
}
static bool ProjC(IMkvReader* r, long long pos, long long size, Projection** p) {
  ENSURES(r == &g_file && *p == nullptr, "projection: reader and result");
  if (!Payload(pos, size)) return false;
  *p = g_proj[s.k - 1] = new Projection();
  return true;
}
VF_CONTRACT(nest, colour, &Colour::Parse, &ColourC)
VF_CONTRACT(nest, proj, &Projection::Parse, &ProjC)
//@ proof video_track functions=VideoTrack::Parse contracts=dec,copy,nest
VF_PROOF(video_track) {
  Begin(3, [](long long id) { return id == 0x2383E3; },
        [](long long id) { return id == 0x2EB524; });
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k)  // nested masters are replayed empty
    if (s.e[k].id == 0x55B0 || s.e[k].id == 0x7670)
      REQUIRES(!s.e[k].bad && s.e[k].size == 0);
#endif
  Track::Info info;
  info.type = Track::kVideo;
  info.number = 7;
  info.settings.start = kBase;
  info.settings.size = s.size;
  VideoTrack* t = nullptr;
  long st = VideoTrack::Parse(Seg(), info, 900, 5000, t);
  bool ok = true;
  long long v[6] = {0, 0, 0, 0, 0, 0};
  static const long long id[6] = {0xB0, 0xBA, 0x54B0, 0x54BA, 0x54B2, 0x53B8};
  double rate = 0;
  const Elem* space = nullptr;
  Colour* col = nullptr;
  Projection* proj = nullptr;
  bool has_col = false, has_proj = false;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    for (int i = 0; i < 6; ++i)
      if (e.id == id[i]) {
        v[i] = (long long)e.u;
        if (!UintOk(e) || v[i] < (i < 4 ? 1 : 0)) ok = false;
      }
    if (e.id == 0x2383E3) {
      rate = e.f;
      if (!FloatOk(e) || !(rate > 0)) ok = false;
    } else if (e.id == 0x2EB524) {
      space = &e;
      if (e.bad) ok = false;
    } else if (e.id == 0x55B0) {
      col = g_colour[k];
      has_col = true;
      if (e.bad) ok = false;
    } else if (e.id == 0x7670) {
      proj = g_proj[k];
      has_proj = true;
      if (e.bad) ok = false;
    }
  }
  if (!ok) ENSURES(st < 0, "malformed video settings are refused");
  if (ok) ENSURES(st == 0 || st == -1, "well-formed video settings accepted");
  if (st) {
    ENSURES(st < 0 && !t, "errors are negative");
    return;
  }
  ENSURES(t->GetWidth() == v[0] && t->GetHeight() == v[1], "pixel size");
  ENSURES(t->GetDisplayWidth() == (v[2] ? v[2] : v[0]) &&
              t->GetDisplayHeight() == (v[3] ? v[3] : v[1]) &&
              t->GetDisplayUnit() == v[4],
          "display size (the pixel size when absent) and unit");
  ENSURES(t->GetStereoMode() == v[5], "stereo mode");
  ENSURES(t->GetFrameRate() == rate, "frame rate");
  ENSURES(OptStr(t->GetColourSpace(), space), "colour space");
#ifdef VF_NATIVE
  ENSURES(!t->GetColour() == !has_col && !t->GetProjection() == !has_proj,
          "colour and projection");
#else
  ENSURES(t->GetColour() == col && !t->GetColour() == !has_col, "colour");
  ENSURES(t->GetProjection() == proj && !t->GetProjection() == !has_proj,
          "projection");
  ENSURES(g_copied.from == &info && g_copied.to == &t->m_info,
          "the track entry's fields are the track's");
#endif
  vf_cover(space && has_col && has_proj, "colour space, colour and projection");
}
static bool AllFloat(long long) { return true; }
// is `f` a value a float holds without under- or overflow?
static bool Normal(double f) {
  return f == 0 || (f >= FLT_MIN && f <= FLT_MAX) ||
         (f <= -FLT_MIN && f >= -FLT_MAX);
}
//@ proof chromaticity kind=proof functions=PrimaryChromaticity::Parse
VF_PROOF(chromaticity) {
  Begin(1, AllFloat, None);
  s.cur = &s.e[0];
  const Elem& e = s.e[0];
  PrimaryChromaticity old;
  old.x = 0.25f;
  old.y = 0.5f;
  PrimaryChromaticity* pc = vf_nondet_bool() ? &old : nullptr;
  bool had = pc != nullptr, is_x = vf_nondet_bool();
  bool ok = PrimaryChromaticity::Parse(&g_file, e.pay, e.size, is_x, &pc);
  bool valid = FloatOk(e) && e.f >= 0 && e.f <= 1 && Normal(e.f);
  ENSURES(ok == valid, "exactly coordinates in [0,1] are accepted");
  if (!ok) return;
  ENSURES(had ? pc == &old : pc != nullptr, "one pair per primary");
  ENSURES((is_x ? pc->x : pc->y) == (float)e.f, "coordinate");
  ENSURES((is_x ? pc->y : pc->x) == (had ? is_x ? 0.5f : 0.25f : 0.f),
          "the other coordinate is untouched");
}
// contract of PrimaryChromaticity::Parse (proved above)
static bool ChromC(IMkvReader* r, long long pos, long long size, bool is_x,
                   PrimaryChromaticity** c) {
  ENSURES(r == &g_file, "reader");
  Payload(pos, size);
  if (!*c) *c = new PrimaryChromaticity();
  const Elem& e = *s.cur;
  if (!(FloatOk(e) && e.f >= 0 && e.f <= 1 && Normal(e.f))) return false;
  (is_x ? (*c)->x : (*c)->y) = (float)e.f;
  return true;
}
VF_CONTRACT(chrom, chrom, &PrimaryChromaticity::Parse, &ChromC)
//@ proof mastering functions=MasteringMetadata::Parse contracts=dec,chrom
VF_PROOF(mastering) {
  Begin(3, AllFloat, None);
  MasteringMetadata* m = nullptr;
  bool ok = MasteringMetadata::Parse(&g_file, kBase, s.size, &m);
  bool valid = true, known = true;
  float x[4] = {0, 0, 0, 0}, y[4] = {0, 0, 0, 0};
  bool has[4] = {false, false, false, false};
  float lmax = FLT_MAX, lmin = FLT_MAX;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    REQUIRES(e.f >= 0 || e.f <= -FLT_MIN);  // tiny negatives: not specified
    if (!Whole(k) || !FloatOk(e) || e.f < 0 || !Normal(e.f)) valid = false;
    if (e.id >= 0x55D1 && e.id <= 0x55D8) {
      int c = (int)(e.id - 0x55D1) / 2;
      if (e.f > 1) valid = false;
      for (int i = 0; i < 4; ++i)
        if (i == c) {
          ((e.id & 1) ? x[i] : y[i]) = (float)e.f;
          has[i] = true;
        }
    } else if (e.id == 0x55D9) {
      lmax = (float)e.f;
      if (!(lmax <= 9999.99)) valid = false;
    } else if (e.id == 0x55DA) {
      lmin = (float)e.f;
      if (!(lmin <= 999.9999)) valid = false;
    } else {
      known = false;
    }
  }
  if (known) ENSURES(ok == valid, "exactly values in range are accepted");
  if (!valid && !ok) return;
  if (!ok) {
    ENSURES(!m, "nothing is returned");
    return;
  }
  if (!known) return;
  const PrimaryChromaticity* c[4] = {m->r, m->g, m->b, m->white_point};
  for (int i = 0; i < 4; ++i) {
    ENSURES((c[i] != nullptr) == has[i], "primary present");
    if (c[i]) ENSURES(c[i]->x == x[i] && c[i]->y == y[i], "primary");
  }
  ENSURES(m->luminance_max == lmax, "maximum luminance");
  ENSURES(m->luminance_min == lmin, "minimum luminance");
  vf_cover(has[0] && has[3], "red and white point");
  vf_cover(lmin == 0.5f, "minimum luminance");
}
static MasteringMetadata* g_mm;
static bool MasterC(IMkvReader* r, long long pos, long long size,
                    MasteringMetadata** m) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size) || *m) return false;
  *m = g_mm = new MasteringMetadata();
  return true;
}
VF_CONTRACT(mast, mast, &MasteringMetadata::Parse, &MasterC)
//@ proof colour functions=Colour::Parse contracts=dec,mast
VF_PROOF(colour) {
  Begin(3, None, None);
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k)
    if (s.e[k].id == 0x55D0) REQUIRES(!s.e[k].bad && s.e[k].size == 0);
#endif
  Colour* c = nullptr;
  bool ok = Colour::Parse(&g_file, kBase, s.size, &c);
  bool valid = true, known = true, mm = false;
  long long v[13];
  for (int i = 0; i < 13; ++i) v[i] = LLONG_MAX;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) valid = false;
    if (e.id >= 0x55B1 && e.id <= 0x55BD) {
      for (int i = 0; i < 13; ++i)
        if (e.id == 0x55B1 + i) v[i] = (long long)e.u;
      if (!UintOk(e) || (long long)e.u < 0) valid = false;
    } else if (e.id == 0x55D0) {
      if (e.bad || mm) valid = false;
      mm = true;
    } else {
      known = false;
    }
  }
  if (known) ENSURES(ok == valid, "exactly well-formed colour is accepted");
  if (!valid && !ok) return;
  if (!ok) {
    ENSURES(!c, "nothing is returned");
    return;
  }
  if (!known) return;
  ENSURES(c->matrix_coefficients == v[0], "matrix coefficients");
  ENSURES(c->bits_per_channel == v[1], "bits per channel");
  ENSURES(c->chroma_subsampling_horz == v[2], "chroma subsampling horz");
  ENSURES(c->chroma_subsampling_vert == v[3], "chroma subsampling vert");
  ENSURES(c->cb_subsampling_horz == v[4], "cb subsampling horz");
  ENSURES(c->cb_subsampling_vert == v[5], "cb subsampling vert");
  ENSURES(c->chroma_siting_horz == v[6], "chroma siting horz");
  ENSURES(c->chroma_siting_vert == v[7], "chroma siting vert");
  ENSURES(c->range == v[8], "range");
  ENSURES(c->transfer_characteristics == v[9], "transfer characteristics");
  ENSURES(c->primaries == v[10], "primaries");
  ENSURES(c->max_cll == v[11], "max CLL");
  ENSURES(c->max_fall == v[12], "max FALL");
  ENSURES((c->mastering_metadata != nullptr) == mm, "mastering metadata");
  vf_cover(mm && v[12] == 3 && v[0] == 9, "all kinds");
}
//@ proof projection functions=Projection::Parse
VF_PROOF(projection) {
  Begin(3, [](long long id) { return id != 0x7671 && id != 0x7672; },
        [](long long id) { return id == 0x7672; });
  Projection* p = nullptr;
  bool ok = Projection::Parse(&g_file, kBase, s.size, &p);
  bool valid = true, known = true;
  long long type = -1;
  const Elem* priv = nullptr;
  float pose[3] = {FLT_MAX, FLT_MAX, FLT_MAX};
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) valid = false;
    if (e.id == 0x7671) {
      type = (long long)e.u;
      REQUIRES(type <= INT_MAX);
      if (!UintOk(e) || type < 0) valid = false;
    } else if (e.id == 0x7672) {
      if (priv || e.bad || e.size == 0) valid = false;
      priv = &e;
    } else if (e.id >= 0x7673 && e.id <= 0x7675) {
      if (!FloatOk(e)) valid = false;
      if (e.f != 0) REQUIRES(Normal(e.f));
      for (int i = 0; i < 3; ++i)
        if (e.id == 0x7673 + i) pose[i] = (float)e.f;
      if (!Normal(e.f)) valid = false;
    } else {
      known = false;
    }
  }
  if (known) ENSURES(ok == valid, "exactly well-formed projections are accepted");
  if (!valid && !ok) return;
  if (!ok) {
    ENSURES(!p, "nothing is returned");
    return;
  }
  if (!known) return;
  ENSURES((long long)(int)p->type == type, "projection type");
  ENSURES(p->pose_yaw == pose[0], "yaw");
  ENSURES(p->pose_pitch == pose[1], "pitch");
  ENSURES(p->pose_roll == pose[2], "roll");
  ENSURES((p->private_data != nullptr) == (priv != nullptr), "private data");
  if (priv) {
    ENSURES(p->private_data_length == (size_t)priv->size, "private size");
    ENSURES(BytesAre(p->private_data, *priv), "private bytes");
  }
  vf_cover(priv && type == 2, "type and private data");
}

// contracts of what a track entry hands over to
struct Want {
  bool armed = false, codec_ok = true;
  long type = 0, number = 0;
  unsigned long long uid = 0, dur = 0, delay = 0, preroll = 0;
  bool lacing = true;
  const Elem *name = nullptr, *lang = nullptr, *codec = nullptr,
             *cname = nullptr, *priv = nullptr, *video = nullptr,
             *audio = nullptr, *enc = nullptr;
};
static Want want;
static int g_made;         // 1 video, 2 audio, 3 other
static bool g_enc;         // the encodings were parsed
static bool g_sub_fails;   // the settings are malformed
static Slot<VideoTrack> g_vt;
static Slot<AudioTrack> g_at;
static Slot<Track> g_tt;
static void InfoIs(const Track::Info& i) {
  ENSURES(i.type == want.type, "track type");
  ENSURES(i.number == want.number, "track number");
  ENSURES(i.uid == want.uid, "track UID");
  ENSURES(i.defaultDuration == want.dur, "default duration");
  ENSURES(i.codecDelay == want.delay, "codec delay");
  ENSURES(i.seekPreRoll == want.preroll, "seek pre-roll");
  ENSURES(i.lacing == want.lacing, "lacing flag");
  ENSURES(OptStr(i.nameAsUTF8, want.name), "track name");
  ENSURES(OptStr(i.language, want.lang), "language");
  ENSURES(OptStr(i.codecId, want.codec), "codec ID");
  ENSURES(OptStr(i.codecNameAsUTF8, want.cname), "codec name");
  if (want.priv && want.priv->size)
    ENSURES(i.codecPrivateSize == (size_t)want.priv->size &&
                BytesAre(i.codecPrivate, *want.priv), "codec private data");
  else
    ENSURES(i.codecPrivateSize == 0 && !i.codecPrivate, "no codec private");
}
static bool Sub(Segment* seg, const Track::Info& i, long long start,
                long long size, int what, const Elem* e) {
  ENSURES(seg == &g_seg.v && start == 900 && size == 5000,
          "segment and position of the track entry");
  InfoIs(i);
  if (e) ENSURES(i.settings.start == e->pay && i.settings.size == e->size,
                 "the settings are the Video or Audio child");
  g_made = what;
  return !g_sub_fails;
}
static long VideoC(Segment* seg, const Track::Info& i, long long start,
                   long long size, VideoTrack*& r) {
  ENSURES(i.type == 1 && want.video, "video track");
  if (!Sub(seg, i, start, size, 1, want.video)) return kInvalid;
  r = &g_vt.v;
  return 0;
}
static long AudioC(Segment* seg, const Track::Info& i, long long start,
                   long long size, AudioTrack*& r) {
  ENSURES(i.type == 2 && want.audio, "audio track");
  if (!Sub(seg, i, start, size, 2, want.audio)) return kInvalid;
  r = &g_at.v;
  return 0;
}
static long CreateC(Segment* seg, const Track::Info& i, long long start,
                    long long size, Track*& r) {
  ENSURES(i.type != 1 && i.type != 2, "neither video nor audio");
  if (!Sub(seg, i, start, size, 3, nullptr)) return kIoError;
  r = &g_tt.v;
  return 0;
}
static long EncC(Track*, long long start, long long size) {
  ENSURES(want.enc && start == want.enc->pay && size == want.enc->size,
          "the content encodings are the ContentEncodings child");
  g_enc = true;
  return vf_havoc_bool() ? kInvalid : 0;
}
VF_CONTRACT(entry, video, &VideoTrack::Parse, &VideoC)
VF_CONTRACT(entry, audio, &AudioTrack::Parse, &AudioC)
VF_CONTRACT(entry, create, &Track::Create, &CreateC)
VF_CONTRACT(entry, enc, &Track::ParseContentEncodingsEntry, &EncC)
static bool TrackStr(long long id) {
  return id == 0x536E || id == 0x22B59C || id == 0x86 || id == 0x63A2 ||
         id == 0x258688;
}
// the first children are track number and type in either order
static void Entry(int n, bool type_first, bool any = false) {
  Begin(n, None, TrackStr);
  if (!any) REQUIRES(s.e[0].id == (type_first ? 0x83 : 0xD7));
  if (!any) REQUIRES(s.e[1].id == (type_first ? 0xD7 : 0x83));
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k) {
    long long id = s.e[k].id;
    if (id == 0x6D80 || id == 0xE0 || id == 0xE1)
      REQUIRES(s.e[k].size == 0);  // nested masters are replayed empty
  }
#else
  g_sub_fails = vf_nondet_bool();
#endif
  bool ok = true;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    long long v = (long long)e.u;
    if (!Whole(k)) ok = false;
    switch (e.id) {
      case 0xE0: want.video = &e; break;
      case 0xE1: want.audio = &e; break;
      case 0x6D80: want.enc = &e; break;
      case 0x73C5:
        want.uid = e.size ? e.u : 0;
        if (e.size > 8 || (e.bad && e.size)) ok = false;
        break;
      case 0xD7:
        want.number = (long)v;
        if (!UintOk(e) || v < 1 || v > 127) ok = false;
        break;
      case 0x83:
        want.type = (long)v;
        if (!UintOk(e) || v < 1 || v > 254) ok = false;
        break;
      case 0x23E383:
        want.dur = e.u;
        if (!UintOk(e) || v < 0) ok = false;
        break;
      case 0x56AA:
        want.delay = e.u;
        if (!UintOk(e) || v < 0) ok = false;
        break;
      case 0x56BB:
        want.preroll = e.u;
        if (!UintOk(e) || v < 0) ok = false;
        break;
      case 0x9C:
        want.lacing = v == 1;
        if (!UintOk(e) || v < 0 || v > 1) ok = false;
        break;
      case 0x536E: want.name = &e; if (e.bad) ok = false; break;
      case 0x22B59C: want.lang = &e; if (e.bad) ok = false; break;
      case 0x86: want.codec = &e; if (e.bad) ok = false; break;
      case 0x258688: want.cname = &e; if (e.bad) ok = false; break;
      case 0x63A2:
        want.priv = &e;
        if (e.bad && e.size) ok = false;
        break;
    }
  }
  if (want.number == 0 || want.type == 0) ok = false;
  bool v = want.video != nullptr, a = want.audio != nullptr;
  bool shape = want.type == 1 ? v && !a : want.type == 2 ? a && !v : !v && !a;
  if (want.type == 33 && want.enc) shape = false;
  Tracks t(Seg(), 800, 6000, 700, 6100);
  Track* r = nullptr;
  long st = t.ParseTrackEntry(kBase, s.size, 900, 5000, r);
  if (!ok) ENSURES(st != 0, "a malformed track entry is refused");
  if (!shape) ENSURES(st != 0, "settings match the track type");
#ifndef VF_NATIVE
  if (ok && shape && !g_sub_fails)
    ENSURES(st == 0, "a well-formed track entry is accepted");
#endif
  if (st) {
    ENSURES(st < 0 && !r, "errors are negative, no track is returned");
    return;
  }
#ifndef VF_NATIVE
  ENSURES(!g_sub_fails, "malformed settings are refused");
  ENSURES(g_made == (want.type == 1 ? 1 : want.type == 2 ? 2 : 3), "kind");
  ENSURES(r == (g_made == 1 ? (Track*)&g_vt.v
                            : g_made == 2 ? (Track*)&g_at.v : &g_tt.v),
          "the track made is returned");
  if (g_made != 3)
    ENSURES(g_enc == (want.enc != nullptr), "content encodings are read");
#else
  InfoIs(r->m_info);
#endif
  if (n > 2) {
    vf_cover(g_made == 1, "video");
    vf_cover(g_made == 3 && want.priv, "codec private");
  }
}
//@ proof track_entry3 functions=Tracks::ParseTrackEntry contracts=dec,entry
VF_PROOF(track_entry3) { Entry(3, false); }
//@ proof track_entry4 tier=thorough timeout=800 functions=Tracks::ParseTrackEntry contracts=dec,entry bound="4 children, strings and binaries of at most 3 bytes"
VF_PROOF(track_entry4) { Entry(4, true); }
//@ proof track_entry2 functions=Tracks::ParseTrackEntry contracts=dec,entry bound="2 children, strings and binaries of at most 3 bytes"
VF_PROOF(track_entry2) { Entry(2, true, true); }
static bool EncBytes(long long id) {
  return id == 0x4255 || (id >= 0x47E2 && id <= 0x47E4);
}
//@ proof compression functions=ContentEncoding::ParseCompressionEntry
VF_PROOF(compression) {
  Begin(3, None, EncBytes);
  ContentEncoding ce;
  ContentEncoding::ContentCompression& c =
      *new ContentEncoding::ContentCompression();
  long st = ce.ParseCompressionEntry(kBase, s.size, &g_file, &c);
  bool ok = true, has = false;
  unsigned long long algo = 0;
  const Elem* set = nullptr;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.id == 0x4254) {
      algo = e.u;
      has = true;
      if (!UintOk(e) || (long long)algo < 0) ok = false;
    } else if (e.id == 0x4255) {
      if (e.bad || e.size == 0 || set) ok = false;
      set = &e;
    }
  }
  if (!has) ok = false;
  ENSURES((st == 0) == ok, "exactly well-formed compression is accepted");
  ENSURES(st <= 0, "errors are negative");
  if (st) return;
  ENSURES(c.algo == algo, "compression algorithm");
  ENSURES(set ? BytesAre(c.settings, *set) && c.settings_len == set->size
              : !c.settings && c.settings_len == 0, "compression settings");
  vf_cover(set, "settings");
  delete &c;
}
static bool g_aes;
static long AesC(ContentEncoding*, long long pos, long long size,
                 IMkvReader* r, ContentEncoding::ContentEncAESSettings* a) {
  ENSURES(r == &g_file && a->cipher_mode == 1, "AES settings");
  g_aes = true;
  return Payload(pos, size) ? 0 : kInvalid;
}
VF_CONTRACT(aes, aes, &ContentEncoding::ParseContentEncAESSettingsEntry, &AesC)
//@ proof aes_settings functions=ContentEncoding::ParseContentEncAESSettingsEntry
VF_PROOF(aes_settings) {
  Begin(3, None, None);
  ContentEncoding ce;
  ContentEncoding::ContentEncAESSettings a;
  long st = ce.ParseContentEncAESSettingsEntry(kBase, s.size, &g_file, &a);
  bool ok = true;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k) || (e.id == 0x47E8 && (!UintOk(e) || e.u != 1))) ok = false;
  }
  ENSURES((st == 0) == ok, "the only cipher mode is CTR");
  ENSURES(st <= 0, "errors are negative");
  if (!st) ENSURES(a.cipher_mode == 1, "cipher mode");
}
static ContentEncoding::ContentEncAESSettings* g_a;
//@ proof aes_settings_step functions=ContentEncoding::ParseContentEncAESSettingsEntry contracts=step kind=proof bound=""
VF_PROOF(aes_settings_step) {
  BeginStep([] { return g_a->cipher_mode == 1; }, [] {},
            [](const Elem& e) {
              return e.id != 0x47E8 || (UintOk(e) && e.u == 1);
            },
            None);
  static ContentEncoding ce;
  static ContentEncoding::ContentEncAESSettings a;
  g_a = &a;
  long r = ce.ParseContentEncAESSettingsEntry(kBase, s.size, &g_file, &a);
  bool done = StepDone();
  ENSURES((r == 0) == done && r <= 0, "the only cipher mode is CTR");
  if (!r) ENSURES(a.cipher_mode == 1, "cipher mode");
}
struct Enc {
  unsigned long long algo, sig, hash;
  const unsigned char* b[3];
  long long len[3];
};
static Enc g_e;
static ContentEncoding::ContentEncryption* g_c;
static bool EncInv() {
  const ContentEncoding::ContentEncryption& c = *g_c;
  return c.algo == g_e.algo && c.sig_algo == g_e.sig &&
         c.sig_hash_algo == g_e.hash && c.key_id == g_e.b[0] &&
         c.signature == g_e.b[1] && c.sig_key_id == g_e.b[2] &&
         c.key_id_len == g_e.len[0] && c.signature_len == g_e.len[1] &&
         c.sig_key_id_len == g_e.len[2];
}
static unsigned char* AnyBuf(long long& len) {
  bool has = vf_havoc_bool();
  len = 0;
  if (has) len = (long long)(vf_havoc_u64() >> 8);
  return has ? new unsigned char[1] : nullptr;
}
static void EncAny() {
  ContentEncoding::ContentEncryption& c = *g_c;
  g_e.algo = c.algo = vf_havoc_u64();
  g_e.sig = c.sig_algo = vf_havoc_u64();
  g_e.hash = c.sig_hash_algo = vf_havoc_u64();
  g_e.b[0] = c.key_id = AnyBuf(g_e.len[0]);
  g_e.b[1] = c.signature = AnyBuf(g_e.len[1]);
  g_e.b[2] = c.sig_key_id = AnyBuf(g_e.len[2]);
  c.key_id_len = g_e.len[0];
  c.signature_len = g_e.len[1];
  c.sig_key_id_len = g_e.len[2];
}
static bool EncChild(const Elem& e) {
  int i = e.id == 0x47E2 ? 0 : e.id == 0x47E3 ? 1 : e.id == 0x47E4 ? 2 : 3;
  if (i < 3) {
    for (int k = 0; k < 3; ++k)
      if (k == i) g_e.b[k] = s.buf, g_e.len[k] = e.size;
    return !e.bad && e.size > 0;
  }
  if (e.id == 0x47E7) return !e.bad;
  if (e.id == 0x47E1) g_e.algo = e.u;
  else if (e.id == 0x47E5) g_e.sig = e.u;
  else if (e.id == 0x47E6) g_e.hash = e.u;
  else return true;
  return UintOk(e) && (e.id == 0x47E1 ? e.u == 5 : (long long)e.u >= 0);
}
//@ proof encryption_step functions=ContentEncoding::ParseEncryptionEntry contracts=step,aes kind=proof bound=""
VF_PROOF(encryption_step) {
  BeginStep(EncInv, EncAny, EncChild, None);
  REQUIRES(s.e[0].size < 1ll << 50);  // an allocation of more always fails
  static ContentEncoding ce;
  g_c = new ContentEncoding::ContentEncryption();
  long r = ce.ParseEncryptionEntry(kBase, s.size, &g_file, g_c);
  bool done = StepDone();
  if (done) ENSURES(r == 0 || r == -1, "well-formed encryption accepted");
  if (!done) ENSURES(r < 0, "malformed encryption refused");
  if (!r) ENSURES(EncInv(), "fields of the last such children");
  vf_cover(!r && st.headers && s.buf && g_c->signature == s.buf, "signature");
}
//@ proof encryption functions=ContentEncoding::ParseEncryptionEntry contracts=dec,aes
VF_PROOF(encryption) {
  Begin(3, None, EncBytes);
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k)
    if (s.e[k].id == 0x47E7) REQUIRES(!s.e[k].bad && s.e[k].size == 0);
#endif
  ContentEncoding ce;
  ContentEncoding::ContentEncryption& c =
      *new ContentEncoding::ContentEncryption();
  long st = ce.ParseEncryptionEntry(kBase, s.size, &g_file, &c);
  bool ok = true;
  unsigned long long algo = 0, sig = 0, hash = 0;
  const Elem* b[3] = {nullptr, nullptr, nullptr};
  bool aes = false;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.id == 0x47E1) {
      algo = e.u;
      if (!UintOk(e) || algo != 5) ok = false;
    } else if (e.id >= 0x47E2 && e.id <= 0x47E4) {
      for (int i = 0; i < 3; ++i)
        if (e.id == (i == 0 ? 0x47E2 : i == 1 ? 0x47E3 : 0x47E4)) b[i] = &e;
      if (e.bad || e.size == 0) ok = false;
    } else if (e.id == 0x47E5) {
      sig = e.u;
      if (!UintOk(e) || (long long)sig < 0) ok = false;
    } else if (e.id == 0x47E6) {
      hash = e.u;
      if (!UintOk(e) || (long long)hash < 0) ok = false;
    } else if (e.id == 0x47E7) {
      aes = true;
      if (e.bad) ok = false;
    }
  }
  ENSURES((st == 0) == ok, "exactly well-formed encryption is accepted");
  ENSURES(st <= 0, "errors are negative");
  if (st) return;
  ENSURES(c.algo == algo, "encryption algorithm");
  ENSURES(c.sig_algo == sig, "signature algorithm");
  ENSURES(c.sig_hash_algo == hash, "signature hash algorithm");
  ENSURES(b[0] ? BytesAre(c.key_id, *b[0]) && c.key_id_len == b[0]->size
               : !c.key_id && c.key_id_len == 0, "key ID");
  ENSURES(b[1] ? BytesAre(c.signature, *b[1]) && c.signature_len == b[1]->size
               : !c.signature && c.signature_len == 0, "signature");
  ENSURES(b[2] ? BytesAre(c.sig_key_id, *b[2]) && c.sig_key_id_len == b[2]->size
               : !c.sig_key_id && c.sig_key_id_len == 0, "signature key ID");
#ifndef VF_NATIVE
  ENSURES(g_aes == aes, "AES settings are read");
#endif
  vf_cover(b[0] && aes && algo, "algorithm, key ID and AES settings");
  delete &c;
}
static ContentEncoding::ContentCompression* g_comp[2 * kMax];
static ContentEncoding::ContentEncryption* g_crypt[2 * kMax];
static int g_ncomp, g_ncrypt;
static long CompC(ContentEncoding*, long long pos, long long size,
                  IMkvReader* r, ContentEncoding::ContentCompression* c) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size)) return kInvalid;
  c->algo = s.cur->u;
  g_comp[g_ncomp++] = c;
  return 0;
}
static long CryptC(ContentEncoding*, long long pos, long long size,
                   IMkvReader* r, ContentEncoding::ContentEncryption* c) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size)) return kInvalid;
  c->sig_algo = s.cur->u;
  g_crypt[g_ncrypt++] = c;
  return 0;
}
VF_CONTRACT(coding, comp, &ContentEncoding::ParseCompressionEntry, &CompC)
VF_CONTRACT(coding, crypt, &ContentEncoding::ParseEncryptionEntry, &CryptC)
static void Encoding(int n, long s0, long s1, long s2, long cut) {
  const long two[3] = {2, 2, 2}, size[3] = {s0, s1, s2};
  BeginFixed(n, two, size, cut);
  s.passes = 2;
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k) {
    REQUIRES(s.e[k].id != 0x5034 && s.e[k].id != 0x5035);
  }
#endif
  ContentEncoding& c = *new ContentEncoding();
  long st = c.ParseContentEncodingEntry(kBase, s.size, &g_file);
  bool ok = true;
  unsigned long long order = 0, scope = 1, type = 0, comp[kMax], crypt[kMax];
  unsigned ncomp = 0, ncrypt = 0;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.id == 0x5031) {
      order = e.u;
      if (!UintOk(e) || (long long)order < 0) ok = false;
    } else if (e.id == 0x5032) {
      scope = e.u;
      if (!UintOk(e) || (long long)scope < 1) ok = false;
    } else if (e.id == 0x5033) {
      type = e.u;
      if (!UintOk(e) || (long long)type < 0) ok = false;
    } else if (e.id == 0x5034) {
      comp[ncomp++] = e.u;
      if (e.bad) ok = false;
    } else if (e.id == 0x5035) {
      crypt[ncrypt++] = e.u;
      if (e.bad) ok = false;
    }
  }
  if (!ncomp && !ncrypt) ok = false;
  ENSURES((st == 0) == ok, "exactly well-formed encodings are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (st) return;
  ENSURES(c.encoding_order() == order, "encoding order");
  ENSURES(c.encoding_scope() == scope, "encoding scope");
  ENSURES(c.encoding_type() == type, "encoding type");
  ENSURES(c.GetCompressionCount() == ncomp, "compressions");
  ENSURES(c.GetEncryptionCount() == ncrypt, "encryptions");
  for (unsigned i = 0; i < 4; ++i) {
    const auto* p = c.GetCompressionByIndex(i);
    ENSURES((p != nullptr) == (i < ncomp), "compression by index");
    const auto* q = c.GetEncryptionByIndex(i);
    ENSURES((q != nullptr) == (i < ncrypt), "encryption by index");
#ifndef VF_NATIVE
    if (p) ENSURES(p->algo == comp[i] && p == g_comp[i], "in file order");
    if (q) ENSURES(q->sig_algo == crypt[i] && q == g_crypt[i], "in file order");
#endif
  }
  if (n > 1 && !cut) vf_cover(ncomp == 1 && ncrypt == 1, "both kinds");
}
//@ proof encoding1 functions=ContentEncoding::ParseContentEncodingEntry contracts=dec,coding bound="1 child of 1 byte"
VF_PROOF(encoding1) { Encoding(1, 1, 0, 0, 0); }
//@ proof encoding2 functions=ContentEncoding::ParseContentEncodingEntry contracts=dec,coding bound="2 children of 8 and 3 bytes"
VF_PROOF(encoding2) { Encoding(2, 8, 3, 0, 0); }
//@ proof encoding3 functions=ContentEncoding::ParseContentEncodingEntry contracts=dec,coding bound="3 children of 2, 1 and 6 bytes"
VF_PROOF(encoding3) { Encoding(3, 2, 1, 6, 0); }
//@ proof encodingcut functions=ContentEncoding::ParseContentEncodingEntry contracts=dec,coding bound="last child cut short"
VF_PROOF(encodingcut) { Encoding(2, 8, 3, 0, 1); }
static ContentEncoding* g_made_enc[2 * kMax];
static int g_nenc;
static long EntryC(ContentEncoding* c, long long pos, long long size,
                   IMkvReader* r) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size)) return kInvalid;
  g_made_enc[g_nenc++] = c;
  c->encoding_order_ = s.cur->u;
  return 0;
}
VF_CONTRACT(encs, entry, &ContentEncoding::ParseContentEncodingEntry, &EntryC)
static void Encodings(int n, long s0, long s1, long s2, long cut) {
  const long two[3] = {2, 2, 2}, size[3] = {s0, s1, s2};
  BeginFixed(n, two, size, cut);
  s.passes = 2;
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k) REQUIRES(s.e[k].id != 0x6240);
#endif
  Track& t = *new (std::nothrow) Track(Seg(), 900, 5000);
  long st = t.ParseContentEncodingsEntry(kBase, s.size);
  bool ok = cut == 0;
  unsigned m = 0;
  unsigned long long u[kMax];
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (e.id == 0x6240) {
      u[m++] = e.u;
      if (e.bad) ok = false;
    }
  }
  if (!m) ok = false;
  ENSURES((st == 0) == ok, "exactly well-formed encodings are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (st) return;
  ENSURES(t.GetContentEncodingCount() == m, "encodings of the track");
  for (unsigned i = 0; i < 4; ++i) {
    const ContentEncoding* c = t.GetContentEncodingByIndex(i);
    ENSURES((c != nullptr) == (i < m), "encoding by index");
    if (c) ENSURES(c->encoding_order() == u[i], "in file order");
  }
  if (!cut) vf_cover(m == (unsigned)n, "all encodings");
}
//@ proof encodings2 functions=Track::ParseContentEncodingsEntry contracts=dec,encs bound="2 children of 8 and 3 bytes"
VF_PROOF(encodings2) { Encodings(2, 8, 3, 0, 0); }
//@ proof encodings3 functions=Track::ParseContentEncodingsEntry contracts=dec,encs bound="3 children of 0, 4 and 90 bytes"
VF_PROOF(encodings3) { Encodings(3, 0, 4, 90, 0); }
//@ proof encodingscut functions=Track::ParseContentEncodingsEntry contracts=dec,encs bound="last child cut short"
VF_PROOF(encodingscut) { Encodings(2, 8, 3, 0, 2); }

// Tracks: each TrackEntry child, in order
static Slot<Track> g_tracks[kMax];
static int g_ntracks;
static long TrackEntryC(const Tracks*, long long pos, long long size,
                        long long start, long long element_size, Track*& r) {
  ENSURES(Payload(pos, size) || s.cur->bad, "payload");
  ENSURES(start == s.cur->start && element_size == s.cur->end - s.cur->start,
          "position and size of the whole entry");
  ENSURES(r == nullptr, "no result yet");
  if (s.cur->bad) return kInvalid;
  Track* t = &g_tracks[g_ntracks++].v;
  t->m_info.number = (long)(s.cur->u & 127);
  r = t;
  return 0;
}
VF_CONTRACT(tracks, entry, &Tracks::ParseTrackEntry, &TrackEntryC)
static void AllTracks(int n, long i1, long s0, long s1, long s2, long cut) {
  const long id[3] = {1, i1, 1}, size[3] = {s0, s1, s2};
  BeginFixed(n, id, size, cut);
  s.passes = 2;
#ifdef VF_NATIVE
  for (int k = 0; k < s.n; ++k)
    REQUIRES(s.e[k].id != 0xAE || s.e[k].size == 0);
#endif
  static Slot<Tracks> slot;
  Tracks& t = *new (&slot.v) Tracks(Seg(), kBase, s.size, 900, 5000);
  long st = t.Parse();
  bool ok = cut == 0;
  unsigned m = 0;
  long num[kMax];
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (e.id == 0xAE && e.size) {
      num[m++] = (long)(e.u & 127);
      if (e.bad) ok = false;
    }
  }
  ENSURES((st == 0) == ok, "exactly well-formed tracks are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (st) return;
  ENSURES(t.GetTracksCount() == m, "number of tracks");
  long want_num = vf_nondet_i64();
  const Track* by_num = nullptr;
  for (unsigned i = 0; i < 4; ++i) {
    const Track* p = t.GetTrackByIndex(i);
    ENSURES((p != nullptr) == (i < m), "track by index");
#ifndef VF_NATIVE
    if (p) ENSURES(p == &g_tracks[i].v, "in file order");
    if (p && !by_num && num[i] == want_num) by_num = p;
#endif
  }
  ENSURES(t.GetTrackByNumber(want_num) == by_num, "track by number");
  if (!cut && s0) vf_cover(m > 0 && by_num != nullptr, "found by number");
}
//@ proof tracks1 functions=Tracks::Parse,Tracks::GetTrackByNumber,Tracks::GetTrackByIndex contracts=dec,tracks bound="1 child"
VF_PROOF(tracks1) { AllTracks(1, 1, 7, 0, 0, 0); }
//@ proof tracks3 functions=Tracks::Parse,Tracks::GetTrackByNumber,Tracks::GetTrackByIndex contracts=dec,tracks bound="3 children of 40, 0 and 8 bytes"
VF_PROOF(tracks3) { AllTracks(3, 1, 40, 0, 8, 0); }
//@ proof tracks3b functions=Tracks::Parse,Tracks::GetTrackByNumber,Tracks::GetTrackByIndex contracts=dec,tracks bound="3 children of 3, 5 and 2 bytes, the second not a track"
VF_PROOF(tracks3b) { AllTracks(3, 2, 3, 5, 2, 0); }
//@ proof trackscut functions=Tracks::Parse contracts=dec,tracks bound="last child cut short"
VF_PROOF(trackscut) { AllTracks(2, 1, 3, 5, 0, 1); }

// Track::Info::Copy: strings and private data of up to 3 bytes
static char* AnyStr() {
  if (!vf_nondet_bool()) return nullptr;
  char* p = new char[4];
  for (int i = 0; i < 3; ++i) p[i] = (char)vf_nondet_u8();
  p[3] = 0;
  return p;
}
static bool SameStr(const char* a, const char* b) {
  if (!a || !b) return a == b;
  for (int i = 0; i < 4; ++i) {
    if (a[i] != b[i]) return false;
    if (!a[i]) break;
  }
  return a != b;
}
//@ proof info_copy functions=Track::Info::Copy,Track::Info::CopyStr contracts=none bound="strings and private data of at most 3 bytes"
VF_PROOF(info_copy) {
  Track::Info a, b;
  a.type = vf_nondet_i64();
  a.number = vf_nondet_i64();
  a.uid = vf_nondet_u64();
  a.defaultDuration = vf_nondet_u64();
  a.codecDelay = vf_nondet_u64();
  a.seekPreRoll = vf_nondet_u64();
  a.lacing = vf_nondet_bool();
  a.settings.start = vf_nondet_i64();
  a.settings.size = vf_nondet_i64();
  a.nameAsUTF8 = AnyStr();
  a.language = AnyStr();
  a.codecId = AnyStr();
  a.codecNameAsUTF8 = AnyStr();
  a.codecPrivateSize = vf_range(0, 3);
  if (a.codecPrivateSize) {
    a.codecPrivate = new unsigned char[3];
    for (int i = 0; i < 3; ++i) a.codecPrivate[i] = vf_nondet_u8();
  }
  ENSURES(a.Copy(b) == 0, "copying succeeds");
  ENSURES(b.type == a.type && b.number == a.number && b.uid == a.uid,
          "type, number and UID");
  ENSURES(b.defaultDuration == a.defaultDuration &&
              b.codecDelay == a.codecDelay && b.seekPreRoll == a.seekPreRoll,
          "durations");
  ENSURES(b.lacing == a.lacing && b.settings.start == a.settings.start &&
              b.settings.size == a.settings.size, "lacing and settings");
  ENSURES(SameStr(a.nameAsUTF8, b.nameAsUTF8), "name");
  ENSURES(SameStr(a.language, b.language), "language");
  ENSURES(SameStr(a.codecId, b.codecId), "codec ID");
  ENSURES(SameStr(a.codecNameAsUTF8, b.codecNameAsUTF8), "codec name");
  ENSURES(b.codecPrivateSize == a.codecPrivateSize, "codec private size");
  for (unsigned i = 0; i < 3; ++i)
    if (i < a.codecPrivateSize)
      ENSURES(b.codecPrivate[i] == a.codecPrivate[i], "codec private data");
}
