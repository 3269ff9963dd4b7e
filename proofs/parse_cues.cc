//@ file property=C13 src=mkv unwind=10 unwind_cap=20 contracts=dec,raw solver=cadical cdefine=VF_NO_OOM kind=bounded bound="4 children" assume="allocations succeed in the metadata parsers"
// mkvparser: seek head and cues, over the contracts of the decoding primitives.
#include "elements.h"
using namespace el;

// ReadID and ReadUInt (proved in parse_ebml.cc, C04) read a child's header in
// two steps; `g_outer` is the parent's own header.
static bool g_in_header, g_outer_done, g_outer_bad;
static long long g_outer = -1, g_outer_id;
static bool g_payload_id;  // the first child's payload is read as an ID
static bool IdOk(const Elem& e) {
  return !e.bad && e.size >= 1 && e.size <= 4 &&
         e.u >> (7 * e.size) == 1;
}
static long long ReadIDC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(!g_in_header, "a size follows an ID");
  len = 1;
  if (pos == g_outer) {
    g_in_header = true;
    if (g_outer_bad) return kIoError;
    return g_outer_id;
  }
  if (g_payload_id && s.cur == &s.e[0] && pos == s.e[0].pay && s.k == 1) {
    const Elem& e = s.e[0];
    g_payload_id = false;
    if (IdOk(e)) {
      len = (long)e.size;
      return (long long)e.u;
    }
    if (e.bad || vf_havoc_bool()) return kInvalid;
    // an ID of another length than the payload
    len = 1 + (vf_havoc_u8() & 3);
    REQUIRES(len != e.size);
    return 0x80 + (vf_havoc_u32() >> 4);
  }
  if (s.k >= s.n * s.passes) {
    ENSURES(false, "reads no child beyond the end of its parent");
    return kInvalid;
  }
  const int k = s.k % s.n;
  const Elem& e = s.e[k];
  s.cur = &e;
  ENSURES(pos == e.start, "children lie back to back");
  if (k == s.fail) return kInvalid;
  g_in_header = true;
  len = e.idlen;
  return e.id;
}
static long long ReadUIntC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(g_in_header, "a size follows an ID");
  g_in_header = false;
  len = 1;
  if (pos == g_outer + 1 && !g_outer_done) {
    g_outer_done = true;
    len = 2;
    return s.size;
  }
  const Elem& e = *s.cur;
  ENSURES(pos == e.start + e.idlen, "the size follows the ID");
  ++s.k;
  len = e.szlen;
  return e.size;
}
VF_CONTRACT(raw, id, &ReadID, &ReadIDC)
VF_CONTRACT(raw, uint, &ReadUInt, &ReadUIntC)

// ---- seek head -----------------------------------------------------------
//@ proof seek_entry functions=SeekHead::ParseEntry bound="2 children"
VF_PROOF(seek_entry) {
  Begin(2, None, None);
  g_payload_id = true;
#ifdef VF_NATIVE
  REQUIRES(s.e[0].size <= 8);
#endif
  SeekHead::Entry e;
  bool got = SeekHead::ParseEntry(&g_file, kBase, s.size, &e);
  const Elem &a = s.e[0], &b = s.e[1];
  bool ok = Whole(0) && Whole(1) && a.id == 0x53AB && IdOk(a) &&
            b.id == 0x53AC && UintOk(b) && (long long)b.u >= 0;
  ENSURES(got == ok, "exactly well-formed entries are accepted");
  if (got) {
    ENSURES(e.id == (long long)a.u, "ID of the element sought");
    ENSURES(e.pos == (long long)b.u, "position of the element sought");
    vf_cover(e.id == 0x1C53BB6B && e.pos > 1000, "an entry");
  }
}
//@ proof seek_entry_short functions=SeekHead::ParseEntry bound="1 child"
VF_PROOF(seek_entry_short) {
  Begin(1, None, None);
  s.n = 2;  // whatever follows the entry
  s.e[1] = s.e[0];
  s.e[1].start = s.e[0].end;
  s.e[1].pay = s.e[1].start + s.e[1].idlen + s.e[1].szlen;
  s.e[1].end = s.e[1].pay + s.e[1].size;
  g_payload_id = true;
#ifdef VF_NATIVE
  REQUIRES(s.e[0].size <= 8);
#endif
  SeekHead::Entry e;
  ENSURES(!SeekHead::ParseEntry(&g_file, kBase, s.size, &e),
          "an entry without position is refused");
  ENSURES(!SeekHead::ParseEntry(&g_file, kBase, 0, &e), "empty entry");
}
static bool EntryC(IMkvReader* r, long long pos, long long size,
                   SeekHead::Entry* e) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size) || size == 0) {
    e->id = 5;  // may be left behind by a failed attempt
    return false;
  }
  e->id = (long long)(s.cur->u & 0xffff);
  e->pos = (long long)(s.cur->u >> 20);
  return true;
}
VF_CONTRACT(entry, entry, &SeekHead::ParseEntry, &EntryC)
static void Heads(const long long* ids, const long* idlen, const long* size,
                  long cut) {
  BeginFixed(4, idlen, size, cut, true, ids);
#ifdef VF_NATIVE
  REQUIRES(false);
#endif
  s.passes = 2;
  static Slot<SeekHead> slot;
  SeekHead& h = *new (&slot.v) SeekHead(Seg(), kBase, s.size, 900, 5000);
  long st = h.Parse();
  ENSURES((st == 0) == (cut == 0), "exactly well-formed seek heads");
  if (st) return;
  int n = 0, v = 0;
  for (int k = 0; k < 4; ++k) {
    const Elem& e = s.e[k];
    if (ids[k] == 0x4DBB) {
      if (e.bad || e.size == 0) continue;
      const SeekHead::Entry* x = h.GetEntry(n++);
      ENSURES(x && x->id == (long long)(e.u & 0xffff) &&
                  x->pos == (long long)(e.u >> 20),
              "entries in file order, complete");
      ENSURES(x->element_start == e.start && x->element_size == e.end - e.start,
              "where the entry lies");
    } else if (ids[k] == 0xEC) {
      const SeekHead::VoidElement* x = h.GetVoidElement(v++);
      ENSURES(x && x->element_start == e.start &&
                  x->element_size == e.end - e.start,
              "where the void element lies");
    }
  }
  ENSURES(h.GetCount() == n && h.GetVoidElementCount() == v, "counts");
  ENSURES(!h.GetEntry(n) && !h.GetEntry(-1) && !h.GetVoidElement(v) &&
              !h.GetVoidElement(-1),
          "no entry outside");
}
//@ proof seek_head functions=SeekHead::Parse,SeekHead::GetEntry,SeekHead::GetVoidElement contracts=dec,entry
VF_PROOF(seek_head) {
  static const long long ids[] = {0x4DBB, 0x4DBB, 0xEC, 0x4DBB};
  static const long idlen[] = {2, 2, 1, 2}, size[] = {8, 5, 7, 6};
  Heads(ids, idlen, size, 0);
}
//@ proof seek_head_other functions=SeekHead::Parse contracts=dec,entry
VF_PROOF(seek_head_other) {
  static const long long ids[] = {0xEC, 0xBF, 0x4DBB, 0xEC};
  static const long idlen[] = {1, 1, 2, 1}, size[] = {0, 4, 3, 2};
  Heads(ids, idlen, size, 0);
}
//@ proof seek_head_void functions=SeekHead::Parse contracts=dec,entry
VF_PROOF(seek_head_void) {
  static const long long ids[] = {0xBF, 0xEC, 0xBF, 0x4DBB};
  static const long idlen[] = {1, 1, 1, 2}, size[] = {1, 1, 1, 0};
  Heads(ids, idlen, size, 0);
}
//@ proof seek_head_cut functions=SeekHead::Parse contracts=dec,entry
VF_PROOF(seek_head_cut) {
  static const long long ids[] = {0x4DBB, 0xEC, 0x4DBB, 0x4DBB};
  static const long idlen[] = {2, 1, 2, 2}, size[] = {8, 5, 7, 6};
  Heads(ids, idlen, size, 1);
}
//@ proof seek_head_cut_void functions=SeekHead::Parse contracts=dec,entry
VF_PROOF(seek_head_cut_void) {
  static const long long ids[] = {0x4DBB, 0xEC, 0x4DBB, 0xEC};
  static const long idlen[] = {2, 1, 2, 1}, size[] = {8, 5, 7, 6};
  Heads(ids, idlen, size, 8);
}

// ---- cue points ----------------------------------------------------------
static void TrackPos(bool can = true) {
  CuePoint::TrackPosition t;
  t.m_track = vf_nondet_i64();
  t.m_pos = vf_nondet_i64();
  t.m_block = vf_nondet_i64();
  bool got = t.Parse(&g_file, kBase, s.size);
  bool ok = true;
  long long track = -1, pos = -1, block = 1;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    long long v = UintOk(e) ? (long long)e.u : -1;
    if (e.id == 0xF7) track = v;
    if (e.id == 0xF1) pos = v;
    if (e.id == 0x5378) block = v;
  }
  if (track <= 0 || pos < 0 || block < 0) ok = false;
  ENSURES(got == ok, "exactly well-formed track positions are accepted");
  if (got)
    ENSURES(t.m_track == track && t.m_pos == pos && t.m_block == block,
            "track, cluster position and block number");
  if (can) vf_cover(got, "accepted");
}
//@ proof track_position functions=CuePoint::TrackPosition::Parse bound="2 children of any kind and size" tier=thorough
VF_PROOF(track_position) {
  Begin(2, None, None);
  TrackPos();
}
//@ proof track_position_any functions=CuePoint::TrackPosition::Parse bound="3 children of any kind and size" tier=thorough
VF_PROOF(track_position_any) {
  Begin(3, None, None);
  TrackPos();
}
//@ proof track_position_block functions=CuePoint::TrackPosition::Parse bound="4 children"
VF_PROOF(track_position_block) {
  static const long long ids[] = {0x5378, 0xF7, 0xEC, 0xF1};
  static const long idlen[] = {2, 1, 1, 1}, size[] = {2, 1, 5, 8};
  BeginFixed(4, idlen, size, 0, true, ids);
  TrackPos();
}
//@ proof track_position_last functions=CuePoint::TrackPosition::Parse bound="4 children"
VF_PROOF(track_position_last) {
  static const long long ids[] = {0xF1, 0xF7, 0xF1, 0xF7};
  static const long idlen[] = {1, 1, 1, 1}, size[] = {3, 2, 8, 1};
  BeginFixed(4, idlen, size, 0, true, ids);
  TrackPos();
}
//@ proof track_position_last_block functions=CuePoint::TrackPosition::Parse bound="4 children"
VF_PROOF(track_position_last_block) {
  static const long long ids[] = {0xF1, 0x5378, 0xF7, 0x5378};
  static const long idlen[] = {1, 2, 1, 2}, size[] = {3, 2, 8, 1};
  BeginFixed(4, idlen, size, 0, true, ids);
  TrackPos();
}
//@ proof track_position_missing functions=CuePoint::TrackPosition::Parse bound="3 children"
VF_PROOF(track_position_missing) {
  static const long long ids[] = {0xF1, 0x5378, 0xF0};
  static const long idlen[] = {1, 2, 1}, size[] = {3, 2, 8};
  BeginFixed(3, idlen, size, 0, true, ids);
  TrackPos(false);
}
//@ proof track_position_cut functions=CuePoint::TrackPosition::Parse bound="3 children"
VF_PROOF(track_position_cut) {
  static const long long ids[] = {0xF1, 0xF7, 0x5378};
  static const long idlen[] = {1, 1, 2}, size[] = {3, 1, 4};
  BeginFixed(3, idlen, size, 1, true, ids);
  TrackPos(false);
}
// ---- any number of children ------------------------------------------------
static CuePoint::TrackPosition g_tpos, g_rec = {-1, -1, 1};
static long long ReadIDStepC(IMkvReader* r, long long pos, long& len) {
  const Elem& e = s.e[0];
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(!g_in_header, "a size follows an ID");
  ENSURES(pos < kBase + s.size, "reads no child beyond the end of its parent");
  if (st.headers++) {
    ENSURES(pos == e.end, "children lie back to back");
    StepNext();
    return kInvalid;
  }
  ENSURES(pos == e.start, "the first child starts where the parent does");
  ENSURES(st.inv(), "the object starts out with the defaults");
  st.any();
  s.cur = &e;
  g_in_header = true;
  len = e.idlen;
  return e.id;
}
static long long ReadUIntStepC(IMkvReader* r, long long pos, long& len) {
  ENSURES(r == &g_file, "reads the segment's file");
  ENSURES(g_in_header && pos == s.cur->start + s.cur->idlen,
          "a size follows an ID");
  g_in_header = false;
  len = s.cur->szlen;
  return s.cur->size;
}
VF_CONTRACT(rstep, id, &ReadID, &ReadIDStepC)
VF_CONTRACT(rstep, size, &ReadUInt, &ReadUIntStepC)
VF_CONTRACT(rstep, uint, &UnserializeUInt, &UIntC)
static bool TposInv() {
  return g_tpos.m_track == g_rec.m_track && g_tpos.m_pos == g_rec.m_pos &&
         g_tpos.m_block == g_rec.m_block;
}
static void TposAny() {
  g_rec.m_track = g_tpos.m_track = (long long)vf_havoc_u64();
  g_rec.m_pos = g_tpos.m_pos = (long long)vf_havoc_u64();
  g_rec.m_block = g_tpos.m_block = (long long)vf_havoc_u64();
}
static bool TposChild(const Elem& e) {
  const long long v = e.size < 1 || e.size > 8 ? kInvalid
                      : e.bad                  ? kIoError
                                               : (long long)e.u;
  if (e.id == 0xF7) g_rec.m_track = v;
  if (e.id == 0xF1) g_rec.m_pos = v;
  if (e.id == 0x5378) g_rec.m_block = v;
  return true;
}
//@ proof track_position_step functions=CuePoint::TrackPosition::Parse contracts=rstep kind=proof bound=""
VF_PROOF(track_position_step) {
  BeginStep(TposInv, TposAny, TposChild, None);
  const long long start = s.e[0].start, stop = kBase + s.size;
  REQUIRES(start < stop);
  bool got = g_tpos.Parse(&g_file, start, stop - start);
  bool done = StepDone();
  ENSURES(got == (done && g_rec.m_track > 0 && g_rec.m_pos >= 0 &&
                  g_rec.m_block >= 0),
          "exactly well-formed track positions are accepted");
  ENSURES(!got || TposInv(), "track, cluster position and block number");
  vf_cover(got && g_tpos.m_block == 7, "accepted");
}
static bool TrackPosC(CuePoint::TrackPosition* t, IMkvReader* r, long long pos,
                      long long size) {
  ENSURES(r == &g_file, "reader");
  if (!Payload(pos, size)) return false;
  t->m_track = (long long)(s.cur->u & 0xff);
  t->m_pos = (long long)(s.cur->u >> 8);
  t->m_block = 1;
  return true;
}
VF_CONTRACT(tpos, tpos, &CuePoint::TrackPosition::Parse, &TrackPosC)
// Cue point at kBase - 3 (one ID byte, two size bytes).
static void Point(const long long* ids, const long* idlen, const long* size,
                  long cut) {
  BeginFixed(3, idlen, size, cut, true, ids);
#ifdef VF_NATIVE
  REQUIRES(false);
#endif
  s.passes = 2;
  g_outer = kBase - 3;
  g_outer_id = 0xBB;
  static Slot<CuePoint> slot;
  CuePoint& c = *new (&slot.v) CuePoint(7, kBase - 3);
  ENSURES(c.GetTimeCode() < 0, "not loaded yet");
  bool got = c.Load(&g_file);
  bool ok = cut == 0;
  long long time = -1;
  int n = 0;
  for (int k = 0; k < 3; ++k) {
    const Elem& e = s.e[k];
    if (ids[k] == 0xB3) time = UintOk(e) ? (long long)e.u : -1;
    if (ids[k] == 0xB7) {
      ++n;
      if (e.bad) ok = false;
    }
  }
  if (time < 0 || n == 0) ok = false;
  ENSURES(got == ok, "exactly well-formed cue points are accepted");
  if (!got) return;
  ENSURES(c.GetTimeCode() == time, "cue time");
  ENSURES(c.m_element_start == kBase - 3 && c.m_element_size == 3 + s.size,
          "where the cue point lies");
  static Slot<Track> track;
  long long num = vf_nondet_u8();
  const_cast<Track::Info&>(track.v.m_info).number = num;
  const CuePoint::TrackPosition* f = c.Find(&track.v);
  bool seen = false;
  for (int k = 0; k < 3; ++k) {
    const Elem& e = s.e[k];
    if (ids[k] != 0xB7 || seen || (long long)(e.u & 0xff) != num) continue;
    seen = true;
    ENSURES(f && f->m_track == num && f->m_pos == (long long)(e.u >> 8) &&
                f->m_block == 1,
            "position of the track sought");
  }
  ENSURES((f != nullptr) == seen, "found if and only if the track has a cue");
  ENSURES(!c.Find(nullptr), "no track");
  ENSURES(c.Load(&g_file), "loaded once");
}
//@ proof cue_point functions=CuePoint::Load,CuePoint::Find contracts=dec,raw,tpos
VF_PROOF(cue_point) {
  static const long long ids[] = {0xB3, 0xB7, 0xB7};
  static const long idlen[] = {1, 1, 1}, size[] = {3, 6, 6};
  Point(ids, idlen, size, 0);
}
//@ proof cue_point_last_time functions=CuePoint::Load contracts=dec,raw,tpos
VF_PROOF(cue_point_last_time) {
  static const long long ids[] = {0xB7, 0xB3, 0xB3};
  static const long idlen[] = {1, 1, 1}, size[] = {6, 8, 4};
  Point(ids, idlen, size, 0);
}
//@ proof cue_point_other functions=CuePoint::Load contracts=dec,raw,tpos
VF_PROOF(cue_point_other) {
  static const long long ids[] = {0xB7, 0xEC, 0xB3};
  static const long idlen[] = {1, 1, 1}, size[] = {6, 9, 8};
  Point(ids, idlen, size, 0);
}
//@ proof cue_point_cut functions=CuePoint::Load contracts=dec,raw,tpos
VF_PROOF(cue_point_cut) {
  static const long long ids[] = {0xB3, 0xB7, 0xB7};
  static const long idlen[] = {1, 1, 1}, size[] = {1, 6, 6};
  Point(ids, idlen, size, 1);
}
//@ proof cue_point_incomplete functions=CuePoint::Load contracts=dec,raw,tpos
VF_PROOF(cue_point_incomplete) {
  static const long long ids[] = {0xB3, 0xEC, 0xBF};
  static const long idlen[] = {1, 1, 1}, size[] = {1, 6, 6};
  Point(ids, idlen, size, 0);
}
// ---- cues ----------------------------------------------------------------
static int g_loads;
static bool LoadC(CuePoint* c, IMkvReader* r) {
  ENSURES(r == &g_file, "reader");
  ENSURES(c->m_index == g_loads, "cue points are loaded in order");
  ENSURES(-c->m_timecode == s.cur->start, "the cue point at hand is loaded");
  ++g_loads;
  if (s.cur->bad) return false;
  c->m_timecode = (long long)(s.cur->u >> 1);
  return true;
}
VF_CONTRACT(load, load, &CuePoint::Load, &LoadC)
// PreloadCuePoint: appends an unloaded cue point (proved by preload_*).
static Slot<CuePoint> g_pre[4];
static CuePoint* g_list[4];
static bool PreloadC(const Cues* c, long&, long long pos) {
  if (c->m_count != 0) return false;
  const int n = (int)c->m_preload_count;
  ENSURES(n >= 0 && n < 4, "cue points preloaded");
  g_list[n] = new (&g_pre[n].v) CuePoint(n, pos);
  c->m_cue_points = g_list;
  ++c->m_preload_count;
  return true;
}
VF_CONTRACT(preload, preload, &Cues::PreloadCuePoint, &PreloadC)
static void Preload(long have, long room) {
  static Slot<Cues> slot;
  static Slot<CuePoint> old[4];
  Cues& c = *new (&slot.v) Cues(Seg(), kBase, 10, 900, 5000);
  c.m_count = vf_nondet_bool();
  c.m_preload_count = have;
  c.m_cue_points = room > 0 ? new CuePoint*[room] : nullptr;
  for (long i = 0; i < have; ++i) c.m_cue_points[i] = &old[i].v;
  long size = room, pos = vf_nondet_i64();
  REQUIRES(pos > 0);
  bool ok = c.PreloadCuePoint(size, pos);
  if (c.m_count) {
    ENSURES(!ok, "nothing can be added once loading has begun");
  }
  ENSURES(c.m_preload_count == have + ok, "one cue point more on success");
  ENSURES(size >= c.m_preload_count, "room for the cue points");
  for (long i = 0; i < have; ++i)
    ENSURES(c.m_cue_points[i] == &old[i].v, "earlier cue points stay");
  if (ok)
    ENSURES(c.m_cue_points[have]->m_index == have &&
                c.m_cue_points[have]->m_element_start == 0 &&
                c.m_cue_points[have]->m_timecode == -pos,
            "the new cue point follows, with its position");
}
//@ proof preload_room functions=Cues::PreloadCuePoint contracts=
VF_PROOF(preload_room) { Preload(2, 4); }
//@ proof preload_grow functions=Cues::PreloadCuePoint contracts=
VF_PROOF(preload_grow) { Preload(3, 3); }
//@ proof preload_first functions=Cues::PreloadCuePoint contracts= flags="--max-field-sensitivity-array-size 2100"
VF_PROOF(preload_first) { Preload(0, 0); }
static void AllCues(const long long* ids, const long* idlen, const long* size,
                    long cut) {
  BeginFixed(4, idlen, size, cut, true, ids);
#ifdef VF_NATIVE
  REQUIRES(false);
#endif
  s.passes = 2;
  static Slot<Cues> slot;
  Cues& c = *new (&slot.v) Cues(Seg(), kBase, s.size, 900, 5000);
  ENSURES(!c.GetFirst() && !c.GetLast() && !c.DoneParsing(), "nothing yet");
  const CuePoint* prev = nullptr;
  bool bad = cut != 0;
  int n = 0;
  for (int k = 0; k < 4; ++k) {
    if (ids[k] != 0xBB) continue;
    const Elem& e = s.e[k];
    bool got = c.LoadCuePoint();
    if (e.bad) bad = true;
    ENSURES(got == !bad, "each cue point is loaded in turn");
    if (bad) break;
    ++n;
    ENSURES(c.GetCount() == n, "number of cue points loaded");
    const CuePoint* p = c.GetLast();
    ENSURES(p && p->GetTimeCode() == (long long)(e.u >> 1), "latest cue point");
    if (prev)
      ENSURES(c.GetNext(prev) == p, "cue points follow one another");
    else
      ENSURES(c.GetFirst() == p, "first cue point");
    ENSURES(!c.GetNext(p), "no cue point after the last");
    prev = p;
  }
  ENSURES(!c.LoadCuePoint() && c.DoneParsing(), "nothing is left");
  if (n > 0) ENSURES(c.GetCount() == n, "number of cue points");
}
//@ proof cues functions=Cues::Init,Cues::LoadCuePoint,Cues::GetFirst,Cues::GetLast,Cues::GetNext,Cues::GetCount contracts=dec,raw,load,preload
VF_PROOF(cues) {
  static const long long ids[] = {0xBB, 0xBB, 0xEC, 0xBB};
  static const long idlen[] = {1, 1, 1, 1}, size[] = {10, 9, 3, 8};
  AllCues(ids, idlen, size, 0);
}
//@ proof cues_cut functions=Cues::Init,Cues::LoadCuePoint contracts=dec,raw,load,preload
VF_PROOF(cues_cut) {
  static const long long ids[] = {0xBB, 0xBB, 0xEC, 0xBB};
  static const long idlen[] = {1, 1, 1, 1}, size[] = {10, 9, 3, 8};
  AllCues(ids, idlen, size, 1);
}
static const int kCues = 6;
static Slot<CuePoint> g_cue[kCues];
static long long g_time[kCues];
static long long TimeC(const CuePoint* c, const Segment* seg) {
  ENSURES(seg == &g_seg.v, "segment");
  for (int i = 0; i < kCues; ++i)
    if (c == &g_cue[i].v) return g_time[i];
  ENSURES(false, "a cue point of these cues");
  return 0;
}
static CuePoint::TrackPosition g_tp[kCues];
static bool g_has[kCues];
static const CuePoint::TrackPosition* FindC(const CuePoint* c, const Track*) {
  for (int i = 0; i < kCues; ++i)
    if (c == &g_cue[i].v) return g_has[i] ? &g_tp[i] : nullptr;
  ENSURES(false, "a cue point of these cues");
  return nullptr;
}
VF_CONTRACT(find, time, &CuePoint::GetTime, &TimeC)
VF_CONTRACT(find, find, &CuePoint::Find, &FindC)
//@ proof cues_find functions=Cues::Find contracts=find bound="up to 6 cue points"
VF_PROOF(cues_find) {
  int n = (int)vf_range(1, kCues);
  static CuePoint* ptr[kCues];
  static Slot<Cues> slot;
  static Slot<Track> track;
  Cues& c = *new (&slot.v) Cues(Seg(), kBase, 10, 900, 5000);
  long long t = vf_nondet_i64();
  int want = 0;
#ifdef VF_NATIVE
  static Slot<SegmentInfo> info;
  info.v.m_timecodeScale = 1;
  g_seg.v.m_pInfo = &info.v;
  const_cast<Track::Info&>(track.v.m_info).number = 1;
#endif
  for (int i = 0; i < kCues; ++i) {
    new (&g_cue[i].v) CuePoint(i, 1);
    ptr[i] = &g_cue[i].v;
    g_time[i] = vf_nondet_i64();
    g_has[i] = vf_nondet_bool();
    REQUIRES(g_time[i] >= 0 && (i == 0 || g_time[i] > g_time[i - 1]));
    if (i < n && g_time[i] <= t) want = i;
#ifdef VF_NATIVE
    g_cue[i].v.m_timecode = g_time[i];
    g_cue[i].v.m_track_positions = &g_tp[i];
    g_cue[i].v.m_track_positions_count = g_has[i];
    g_tp[i].m_track = 1;
#endif
  }
  const CuePoint* p = nullptr;
  const CuePoint::TrackPosition* tp = nullptr;
  ENSURES(!c.Find(t, &track.v, p, tp), "no cue points");
  c.m_cue_points = ptr;
  ENSURES(!c.Find(t, &track.v, p, tp), "no cue points loaded");
  c.m_count = n;
  ENSURES(!c.Find(t, nullptr, p, tp), "no track");
  bool got = c.Find(t, &track.v, p, tp);
  ENSURES(got == (t >= 0 && g_has[want]),
          "found exactly if the latest cue point has the track");
  if (got)
    ENSURES(tp == &g_tp[want] && p == &g_cue[want].v,
            "latest cue point not after the time, or the first");
  vf_cover(got && want == 4, "found");
}
//@ proof cue_time functions=CuePoint::GetTime contracts= bound="timecode scales 1, 1000 and 1000000"
VF_PROOF(cue_time) {
  static Slot<SegmentInfo> info;
  Segment* seg = Seg();
  seg->m_pInfo = &info.v;
  CuePoint& c = *new (&g_cue[0].v) CuePoint(0, 1);
  c.m_timecode = vf_nondet_i64();
  REQUIRES(c.m_timecode >= 0 && c.m_timecode <= LLONG_MAX / 1000000);
  static const long long scales[3] = {1, 1000, 1000000};
  for (int i = 0; i < 3; ++i) {
    info.v.m_timecodeScale = scales[i];
    ENSURES(c.GetTime(seg) == c.m_timecode * scales[i], "scaled time");
  }
}
