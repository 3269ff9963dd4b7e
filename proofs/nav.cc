//@ file property=C14 src=mkv unwind=10 unwind_cap=20 contracts=nav solver=cadical kind=bounded
// mkvparser: clusters and blocks found by time, track and order.  The clusters
// of a segment are laid out in a static world; their blocks are parsed lazily
// through the contract of Cluster::Parse (one more block, or none is left).
#include <stdlib.h>
#include "ghost_reader.h"
#include "slot.h"
using namespace mkvparser;
struct NoFile final : IMkvReader {
  int Read(long long, long, unsigned char*) override { return -1; }
  int Length(long long*, long long*) override { return -1; }
};
static NoFile g_file;
static const int kC = 6, kB = 3, kE = 3;
static Slot<Segment> g_seg;
static Slot<SegmentInfo> g_info;
static Slot<Cluster> g_cl[kC];
static Slot<SimpleBlock> g_en[kB][kE];
static Cluster* g_clp[kC];
static BlockEntry* g_enp[kB][kE];
static int g_nc, g_ne[kB];
static Slot<Track> g_track;
static Slot<VideoTrack> g_video;

template <class T, class U>
static void Set(const T& field, U v) { const_cast<T&>(field) = v; }
static long ParseC(const Cluster* c, long long&, long&) {
  for (int i = 0; i < kB; ++i)
    if (c == &g_cl[i].v) {
      if (c->m_entries_count >= g_ne[i]) return 1;
      ++c->m_entries_count;
      return 0;
    }
  ENSURES(false, "a cluster of the segment is parsed");
  return -1;
}
VF_CONTRACT(nav, parse, &Cluster::Parse, &ParseC)
// Cluster::GetTime: its stored time, scaled (by 1 here; see block_time in C05)
static long long TimeC(const Cluster* c) {
  for (int i = 0; i < kC; ++i)
    if (c == &g_cl[i].v) return g_cl[i].v.m_timecode;
  ENSURES(false, "a cluster of the segment");
  return -1;
}
VF_CONTRACT(time, time, &Cluster::GetTime, &TimeC)
static void Clusters(int n, int maxn) {
  g_nc = n;
  Segment& seg = g_seg.v;
  Set(seg.m_pReader, (IMkvReader*)&g_file);
  new (&g_info.v) SegmentInfo(&seg, 0, 0, 0, 0);
  g_info.v.m_timecodeScale = 1;
  seg.m_pInfo = &g_info.v;
  seg.m_clusters = g_clp;
  seg.m_clusterCount = n;
  Set(seg.m_start, 10ll);
  Set(seg.m_size, 90ll);
  for (int i = 0; i < maxn; ++i) {
    Cluster& c = g_cl[i].v;
    Set(c.m_pSegment, &seg);
    c.m_index = i;
    c.m_timecode = (long long)(vf_nondet_u32() & 0x3fffffff);
    if (i) REQUIRES(c.m_timecode > g_cl[i - 1].v.m_timecode);
    c.m_pos = 20;
    Set(c.m_element_start, 1ll);
    c.m_element_size = 10;
    g_clp[i] = &c;
  }
}
// cluster c has n blocks, some of them parsed
static void Blocks(int c, int n, bool all = false) {
  Cluster& cl = g_cl[c].v;
  g_ne[c] = n;
  cl.m_entries = g_enp[c];
  cl.m_entries_size = kE;
  for (int i = 0; i < n; ++i) {
    SimpleBlock* b = new (&g_en[c][i].v) SimpleBlock(&cl, i, 0, 0);
    b->m_block.m_track = 1 + (vf_nondet_u8() & 1);
    b->m_block.m_timecode = (short)(vf_nondet_u16() & 0x7fff);
    b->m_block.m_flags = vf_nondet_u8();
    g_enp[c][i] = b;
  }
  long parsed = (long)vf_range(0, kE);
  REQUIRES(parsed <= n);
  cl.m_entries_count = parsed;
#ifdef VF_NATIVE
  cl.m_entries_count = n;
#else
  if (all) cl.m_entries_count = n;
#endif
}
static const Block& B(int c, int i) { return g_en[c][i].v.m_block; }
static long long BTime(int c, int i) {
  return g_cl[c].v.m_timecode + B(c, i).m_timecode;
}
static Track* MakeTrack(bool video) {
  Track* t = video ? new (&g_video.v) VideoTrack(&g_seg.v, 1, 1)
                   : new (&g_track.v) Track(&g_seg.v, 1, 1);
  Set(t->m_info.number, 1);
  return t;
}
static bool Target(int c, int i, bool video) {
  return B(c, i).m_track == 1 && (!video || (B(c, i).m_flags & 0x80));
}
//@ proof find_cluster functions=Segment::FindCluster contracts=time bound="up to 6 clusters"
VF_PROOF(find_cluster) {
  int n = (int)vf_range(0, kC);
  Clusters(n, kC);
  long long t = vf_nondet_i64();
  const Cluster* got = g_seg.v.FindCluster(t);
  if (n == 0) {
    ENSURES(got->EOS(), "no cluster");
    return;
  }
  int want = 0;
  for (int i = 0; i < kC; ++i)
    if (i < n && g_cl[i].v.m_timecode <= t) want = i;
  ENSURES(got == &g_cl[want].v,
          "the last cluster that starts at or before the time, or the first");
  vf_cover(want == 4, "the fifth");
}
static void Entry(bool video) {
  Clusters(1, 1);
  int n = (int)vf_range(0, 3);
  Blocks(0, 3);
  if (n < g_cl[0].v.m_entries_count) REQUIRES(false);
  g_ne[0] = n;
#ifdef VF_NATIVE
  REQUIRES(n == 3);
#endif
  Track* tr = MakeTrack(video);
  long long t = vf_nondet_i64();
  const BlockEntry* got = g_cl[0].v.GetEntry(tr, t);
  int want = -1;
  bool past = false;
  for (int i = 0; i < 3; ++i) {
    if (i >= n || B(0, i).m_track != 1 || past) continue;
    if (t < 0) {
      if (want < 0 && Target(0, i, video)) want = i;
    } else if (BTime(0, i) > t) {
      past = true;
    } else if (Target(0, i, video)) {
      want = i;
    }
  }
  if (want < 0)
    ENSURES(got == tr->GetEOS(), "no such block");
  else
    ENSURES(got == g_enp[0][want],
            "the latest block of the track not after the time");
  vf_cover(want == 2 && t >= 0, "the third block");
}
//@ proof entry_any functions=Cluster::GetEntry,Track::VetEntry bound="3 blocks"
VF_PROOF(entry_any) { Entry(false); }
//@ proof entry_key functions=Cluster::GetEntry,VideoTrack::VetEntry bound="3 blocks"
VF_PROOF(entry_key) { Entry(true); }
//@ proof cluster_order functions=Cluster::GetFirst,Cluster::GetNext,Cluster::GetLast bound="3 blocks"
VF_PROOF(cluster_order) {
  Clusters(1, 1);
  Blocks(0, 3);
  const Cluster& c = g_cl[0].v;
  const BlockEntry *p = nullptr, *q = nullptr;
  ENSURES(c.GetFirst(p) == 0 && p == g_enp[0][0], "first block");
  ENSURES(c.GetNext(p, q) == 0 && q == g_enp[0][1], "second block");
  if (vf_nondet_bool()) {
    ENSURES(c.GetLast(p) == 0 && p == g_enp[0][2], "last block");
    ENSURES(c.GetEntryCount() == 3, "all blocks are parsed");
  }
  ENSURES(c.GetNext(q, p) == 0 && p == g_enp[0][2], "third block");
  ENSURES(c.GetNext(p, q) == 0 && q == nullptr, "no more blocks");
  ENSURES(c.GetLast(p) == 0 && p == g_enp[0][2], "last block");
}
//@ proof cluster_empty functions=Cluster::GetFirst,Cluster::GetLast bound="no block"
VF_PROOF(cluster_empty) {
  Clusters(1, 1);
  Blocks(0, 0);
  const Cluster& c = g_cl[0].v;
  const BlockEntry* p = g_enp[0][0];
  ENSURES(c.GetFirst(p) == 0 && p == nullptr, "no first block");
  p = g_enp[0][0];
  ENSURES(c.GetLast(p) == 0 && p == nullptr, "no last block");
}
static void First(bool video, int n0, int n1, int n2) {
  Clusters(3, 3);
  Blocks(0, n0);
  Blocks(1, n1);
  Blocks(2, n2);
  bool done = vf_nondet_bool();
  g_seg.v.m_pos = done ? 100 : 99;
  Track* tr = MakeTrack(video);
  const BlockEntry* got = nullptr;
  long r = tr->GetFirst(got);
  const BlockEntry* want = nullptr;
  for (int c = 0; c < 3; ++c)
    for (int i = 0; i < g_ne[c]; ++i)
      if (!want && Target(c, i, video)) want = g_enp[c][i];
  if (want)
    ENSURES(r == 0 && got == want, "first block of the track");
  else if (done)
    ENSURES(r == 1 && got == tr->GetEOS(), "the track has no block");
  else
    ENSURES(r < 0, "more clusters have to be loaded");
  vf_cover(want && want == g_enp[2][0], "in the third cluster");
}
//@ proof first_any functions=Track::GetFirst bound="3 clusters of 2, 0 and 1 blocks"
VF_PROOF(first_any) { First(false, 2, 0, 1); }
//@ proof first_key functions=Track::GetFirst bound="3 clusters of 1, 2 and 1 blocks"
VF_PROOF(first_key) { First(true, 1, 2, 1); }
static void Next(bool video, int n0, int n1, int n2, int at, bool lazy) {
  Clusters(3, 3);
  Blocks(0, n0);
  Blocks(1, n1);
  Blocks(2, n2);
#ifndef VF_NATIVE
  for (int c = 0; c < 3; ++c)
    g_cl[c].v.m_entries_count = lazy ? c ? 0 : at + 1 : g_ne[c];
#endif
  REQUIRES(g_cl[0].v.m_entries_count > at && B(0, at).m_track == 1);
  bool done = vf_nondet_bool();
  g_seg.v.m_pos = done ? 100 : 99;
  Track* tr = MakeTrack(video);
  const BlockEntry* got = nullptr;
  long r = tr->GetNext(g_enp[0][at], got);
  const BlockEntry* want = nullptr;
  for (int c = 0; c < 3; ++c)
    for (int i = c ? 0 : at + 1; i < g_ne[c]; ++i)
      if (!want && B(c, i).m_track == 1) want = g_enp[c][i];
  if (want)
    ENSURES(r == 0 && got == want, "next block of the track");
  else if (done)
    ENSURES(r == 1 && got == tr->GetEOS(), "no more blocks");
  else
    ENSURES(r < 0, "more clusters have to be loaded");
  vf_cover(want && want == g_enp[2][0], "in the third cluster");
}
//@ proof next_0 functions=Track::GetNext bound="3 clusters of 2, 1 and 1 blocks"
VF_PROOF(next_0) { Next(true, 2, 1, 1, 0, false); }
//@ proof next_lazy functions=Track::GetNext bound="3 clusters of 2, 1 and 1 blocks"
VF_PROOF(next_lazy) { Next(true, 2, 1, 1, 0, true); }
//@ proof next_1 functions=Track::GetNext bound="3 clusters of 2, 0 and 2 blocks"
VF_PROOF(next_1) { Next(false, 2, 0, 2, 1, true); }
// ---- seeking ---------------------------------------------------------------
// Contracts: the first block of the track (first_*), a cluster's time, and the
// block of a cluster for a track and time (entry_*).
static const int kS = 4;
static Slot<SimpleBlock> g_hit[kS];
static bool g_has[kS];
static int g_first;         // cluster of the first block of the track
static long g_first_status;
static long long g_first_time, g_want_ns;
static const Track* g_tr;
static Slot<SimpleBlock> g_fb;
static long FirstC(const Track* t, const BlockEntry*& e) {
  ENSURES(t == g_tr, "first block of this track");
  if (g_first_status < 0) e = nullptr;
  else if (g_first_status > 0) e = t->GetEOS();
  else e = &g_fb.v;
  return g_first_status;
}
static const BlockEntry* EntryC(const Cluster* c, const Track* t, long long ns) {
  ENSURES(t == g_tr && ns == g_want_ns, "block of this track and time");
  for (int i = 0; i < kS; ++i)
    if (c == &g_cl[i].v) return g_has[i] ? &g_hit[i].v : t->GetEOS();
  ENSURES(false, "a cluster of the segment");
  return nullptr;
}
static long long BTimeC(const Block* b, const Cluster* c) {
  ENSURES(b == &g_fb.v.m_block && c == &g_cl[g_first].v, "first block's time");
  return g_first_time;
}
typedef const BlockEntry* (Cluster::*GetEntryFn)(const Track*, long long) const;
VF_CONTRACT(seek, first, &Track::GetFirst, &FirstC)
VF_CONTRACT(seek, entry, (GetEntryFn)&Cluster::GetEntry, &EntryC)
VF_CONTRACT(seek, btime, &Block::GetTime, &BTimeC)
static void Seek(bool video, int first) {
#ifdef VF_NATIVE
  REQUIRES(false);
#endif
  Clusters(kS, kS);
  g_first = first;
  g_first_status = (long)vf_range(0, 2) - 1;
  new (&g_fb.v) SimpleBlock(&g_cl[first].v, 0, 0, 0);
  g_first_time = g_cl[first].v.m_timecode + (vf_nondet_u16() & 0x7fff);
  for (int i = 0; i < kS; ++i) {
    new (&g_hit[i].v) SimpleBlock(&g_cl[i].v, 0, 0, 0);
    g_has[i] = vf_nondet_bool();
  }
  long long t = vf_nondet_i64();
  Track* tr = MakeTrack(video);
  g_tr = tr;
  g_want_ns = video ? t : -1;
  const BlockEntry* got = nullptr;
  long r = video ? g_video.v.VideoTrack::Seek(t, got) : tr->Track::Seek(t, got);
  if (g_first_status < 0) {
    ENSURES(r == g_first_status, "more clusters have to be loaded");
    return;
  }
  ENSURES(r == 0, "seeking succeeds");
  const BlockEntry* want = tr->GetEOS();
  if (g_first_status == 0 && t <= g_first_time) {
    want = &g_fb.v;
  } else if (g_first_status == 0) {
    for (int i = first; i < kS; ++i)
      if (g_cl[i].v.m_timecode <= t && g_has[i]) want = &g_hit[i].v;
  }
  ENSURES(got == want, "the block of the last cluster not after the time");
  vf_cover(want == &g_hit[2].v && g_cl[3].v.m_timecode <= t, "third cluster");
}
//@ proof seek_any0 functions=Track::Seek contracts=seek,time bound="4 clusters"
VF_PROOF(seek_any0) { Seek(false, 0); }
//@ proof seek_any1 functions=Track::Seek contracts=seek,time bound="4 clusters, the first without the track"
VF_PROOF(seek_any1) { Seek(false, 1); }
//@ proof seek_key0 functions=VideoTrack::Seek contracts=seek,time bound="4 clusters"
VF_PROOF(seek_key0) { Seek(true, 0); }
//@ proof seek_key1 functions=VideoTrack::Seek contracts=seek,time bound="4 clusters, the first without the track"
VF_PROOF(seek_key1) { Seek(true, 1); }
// ---- block of a cue --------------------------------------------------------
static void CueEntry(long long block) {
  Clusters(1, 1);
  Blocks(0, 3, true);
  static Slot<CuePoint> cp;
  CuePoint::TrackPosition tp;
  tp.m_track = 1;
  tp.m_pos = 0;
  tp.m_block = block;
  CuePoint& c = *new (&cp.v) CuePoint(0, 1);
  c.m_timecode = vf_nondet_i64();
  REQUIRES(c.m_timecode >= 0);
  REQUIRES(B(0, block - 1).m_track == 1 &&
           BTime(0, block - 1) == c.m_timecode);
  const BlockEntry* got = g_cl[0].v.GetEntry(c, tp);
  ENSURES(got == g_enp[0][block - 1], "the block the cue names");
}
//@ proof cue_entry1 functions=Cluster::GetEntry bound="3 blocks"
VF_PROOF(cue_entry1) { CueEntry(1); }
//@ proof cue_entry3 functions=Cluster::GetEntry bound="3 blocks"
VF_PROOF(cue_entry3) { CueEntry(3); }
// ---- one step in a cluster or segment of any length --------------------------
static bool g_parse_fails;
static long ParseAnyC(const Cluster* c, long long&, long&) {
  ENSURES(c == &g_cl[0].v, "the cluster at hand is parsed");
  if (g_parse_fails) return E_BUFFER_NOT_FULL;
  if (c->m_entries_count >= g_ne[0]) return 1;
  ++c->m_entries_count;
  return 0;
}
VF_CONTRACT(navany, parse, &Cluster::Parse, &ParseAnyC)
static BlockEntry** ManyBlocks(int n, int parsed) {
  Clusters(1, 1);
  Cluster& c = g_cl[0].v;
  BlockEntry** arr = (BlockEntry**)malloc(n * sizeof(BlockEntry*));
  REQUIRES(arr != nullptr);
  c.m_entries = arr;
  c.m_entries_size = n;
  g_ne[0] = n;
  c.m_entries_count = parsed;
  g_parse_fails = vf_nondet_bool();
#ifdef VF_NATIVE
  c.m_entries_count = n;
  g_parse_fails = false;
#endif
  return arr;
}
static BlockEntry* Put(BlockEntry** arr, int i, int slot) {
  g_enp[0][slot] = new (&g_en[0][slot].v) SimpleBlock(&g_cl[0].v, i, 0, 0);
  arr[i] = g_enp[0][slot];
  return arr[i];
}
//@ proof cluster_next functions=Cluster::GetNext contracts=navany kind=proof
VF_PROOF(cluster_next) {
  int n = (int)vf_range(1, 0xffffff), at = (int)vf_range(0, 0xffffff),
      parsed = (int)vf_range(1, 0xffffff);
  REQUIRES(at < parsed && parsed <= n);
  BlockEntry** arr = ManyBlocks(n, parsed);
  BlockEntry* cur = Put(arr, at, 0);
  BlockEntry* want = at + 1 < n ? Put(arr, at + 1, 1) : nullptr;
  const BlockEntry* got = cur;
  const bool parse = at + 1 >= g_cl[0].v.m_entries_count;
  long r = g_cl[0].v.GetNext(cur, got);
  if (parse && g_parse_fails) {
    ENSURES(r < 0, "a failed parse is reported");
  } else {
    ENSURES(r == 0 && got == want, "the block after this one, or none");
    ENSURES(g_cl[0].v.m_entries_count >= parsed, "no parsed block is lost");
  }
  vf_cover(parse && want && r == 0, "parsed on demand");
  free(arr);
}
//@ proof cluster_first functions=Cluster::GetFirst contracts=navany kind=proof
VF_PROOF(cluster_first) {
  int n = (int)vf_range(1, 0xffffff), parsed = (int)vf_range(0, 0xffffff);
  REQUIRES(parsed <= n);
  BlockEntry** arr = ManyBlocks(n, parsed);
  BlockEntry* want = Put(arr, 0, 0);
  const bool parse = g_cl[0].v.m_entries_count == 0;
  const BlockEntry* got = nullptr;
  long r = g_cl[0].v.GetFirst(got);
  if (parse && g_parse_fails)
    ENSURES(r < 0 && !got, "a failed parse is reported");
  else
    ENSURES(r == 0 && got == want, "the first block");
  vf_cover(parse && r == 0, "parsed on demand");
  free(arr);
}
//@ proof cluster_at functions=Cluster::GetEntry kind=proof
VF_PROOF(cluster_at) {
  int n = (int)vf_range(1, 0xffffff), at = (int)vf_range(0, 0xffffff);
  REQUIRES(at < n);
  BlockEntry** arr = ManyBlocks(n, n);
  BlockEntry* want = Put(arr, at, 0);
  Cluster& c = g_cl[0].v;
  bool whole = vf_nondet_bool(), known = vf_nondet_bool();
  c.m_element_size = known ? 30 : -1;
  c.m_pos = whole ? 31 : 20;
  long i = (long)vf_nondet_i64();
  REQUIRES(i < 0 || i >= n || i == at);
  const BlockEntry* got = nullptr;
  long r = c.GetEntry(i, got);
  if (i == at)
    ENSURES(r == 1 && got == want, "the block of that index");
  else if (i < 0)
    ENSURES(r < 0 && !got, "no such index");
  else if (known && whole)
    ENSURES(r == 0 && !got, "no more blocks");
  else
    ENSURES(r == E_BUFFER_NOT_FULL && !got, "not parsed yet");
  vf_cover(r == 0, "past the end");
  free(arr);
}
//@ proof segment_walk functions=Segment::GetFirst,Segment::GetLast,Segment::GetNext,Segment::GetCount kind=proof
VF_PROOF(segment_walk) {
  Clusters(1, 3);
  Segment& seg = g_seg.v;
  int n = (int)vf_range(0, 0xffffff), at = (int)vf_range(0, 0xffffff);
  seg.m_clusterCount = n;
  Cluster** arr = (Cluster**)malloc((n + 1) * sizeof(Cluster*));
  REQUIRES(arr != nullptr);
  seg.m_clusters = arr;
  if (n == 0) {
    ENSURES(seg.GetFirst()->EOS() && seg.GetLast()->EOS() &&
                seg.GetCount() == 0,
            "no cluster");
    free(arr);
    return;
  }
  REQUIRES(at < n);
  if (vf_nondet_bool()) {
    arr[0] = &g_cl[0].v;
    ENSURES(seg.GetFirst() == &g_cl[0].v, "the first cluster");
    arr[n - 1] = &g_cl[1].v;
    ENSURES(seg.GetLast() == &g_cl[1].v, "the last cluster");
  } else {
    arr[at] = &g_cl[1].v;
    g_cl[1].v.m_index = at;
    if (at + 1 < n) arr[at + 1] = &g_cl[2].v;
    g_cl[2].v.m_index = at + 1;
    const Cluster* next = seg.GetNext(&g_cl[1].v);
    if (at + 1 < n)
      ENSURES(next == &g_cl[2].v, "the cluster after this one");
    else
      ENSURES(next->EOS(), "no more clusters");
    vf_cover(at > 100 && !next->EOS(), "far in");
  }
  ENSURES(seg.GetCount() == (unsigned long)n, "the number of clusters");
  free(arr);
}
static void Vet(bool video) {
  Clusters(1, 1);
  Blocks(0, 1, true);
  Block& b = g_en[0][0].v.m_block;
  b.m_track = vf_nondet_i64();
  Track* tr = MakeTrack(video);
  long number = (long)vf_nondet_i64();
  REQUIRES(number == b.m_track);
  Set(tr->m_info.number, number);
  bool got = tr->VetEntry(g_enp[0][0]);
  bool key = b.m_flags & 0x80;
  if (video)
    ENSURES(got == key, "a key frame");
  else
    ENSURES(got, "any block");
  ENSURES(tr->GetEOS()->EOS(), "the end marker");
}
//@ proof vet_any functions=Track::VetEntry kind=proof
VF_PROOF(vet_any) { Vet(false); }
//@ proof vet_key functions=VideoTrack::VetEntry kind=proof
VF_PROOF(vet_key) { Vet(true); }
