//@ file property=C12 src=mkv unwind=10 unwind_cap=20 contracts=dec solver=cadical cdefine=VF_NO_OOM kind=bounded bound="3 children, strings of at most 3 bytes" assume="allocations succeed in the metadata parsers"
// mkvparser: chapters and tags, over the contracts of the decoding primitives.
#include "elements.h"
using namespace el;

//@ proof display functions=Chapters::Display::Parse
VF_PROOF(display) {
  Begin(3, None, [](long long id) {
    return id == 0x85 || id == 0x437C || id == 0x437E;
  });
  static Slot<Chapters::Display> slot;
  Chapters::Display& d = slot.v;
  d.Init();
  long st = d.Parse(&g_file, kBase, s.size);
  bool ok = true;
  const Elem *str = nullptr, *lang = nullptr, *country = nullptr;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.size == 0) continue;
    if (e.id != 0x85 && e.id != 0x437C && e.id != 0x437E) continue;
    if (e.bad) ok = false;
    (e.id == 0x85 ? str : e.id == 0x437C ? lang : country) = &e;
  }
  ENSURES((st == 0) == ok, "exactly well-formed displays are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (!st) {
    ENSURES(OptStr(d.GetString(), str), "chapter title");
    ENSURES(OptStr(d.GetLanguage(), lang), "chapter language");
    ENSURES(OptStr(d.GetCountry(), country), "chapter country");
    vf_cover(str && lang && country, "all strings");
  }
  d.Clear();
}
//@ proof simple_tag functions=Tags::SimpleTag::Parse
VF_PROOF(simple_tag) {
  Begin(3, None, [](long long id) { return id == 0x45A3 || id == 0x4487; });
  static Slot<Tags::SimpleTag> slot;
  Tags::SimpleTag& t = slot.v;
  t.Init();
  long st = t.Parse(&g_file, kBase, s.size);
  bool ok = true;
  const Elem *name = nullptr, *str = nullptr;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.size == 0) continue;
    if (e.id != 0x45A3 && e.id != 0x4487) continue;
    if (e.bad) ok = false;
    (e.id == 0x45A3 ? name : str) = &e;
  }
  ENSURES((st == 0) == ok, "exactly well-formed tags are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (!st) {
    ENSURES(OptStr(t.GetTagName(), name), "tag name");
    ENSURES(OptStr(t.GetTagString(), str), "tag value");
    vf_cover(name && str, "name and value");
  }
  t.Clear();
}
// ---- any number of children ------------------------------------------------
static Slot<Chapters::Display> g_d;
static const char* g_s[3];
static bool DispInv() {
  return g_d.v.m_string == g_s[0] && g_d.v.m_language == g_s[1] &&
         g_d.v.m_country == g_s[2];
}
static void DispAny() {
  g_s[0] = g_d.v.m_string = SomeStr();
  g_s[1] = g_d.v.m_language = SomeStr();
  g_s[2] = g_d.v.m_country = SomeStr();
}
static bool DispChild(const Elem& e) {
  if (e.size == 0) return true;
  if (e.id == 0x85) g_s[0] = st.str;
  else if (e.id == 0x437C) g_s[1] = st.str;
  else if (e.id == 0x437E) g_s[2] = st.str;
  else return true;
  return !e.bad;
}
//@ proof display_step functions=Chapters::Display::Parse contracts=step kind=proof bound=""
VF_PROOF(display_step) {
  BeginStep(DispInv, DispAny, DispChild, None);
  g_d.v.Init();
  long r = g_d.v.Parse(&g_file, kBase, s.size);
  bool done = StepDone();
  ENSURES((r == 0) == done && r <= 0, "exactly well-formed displays accepted");
  if (!r)
    ENSURES(g_d.v.GetString() == g_s[0] && g_d.v.GetLanguage() == g_s[1] &&
                g_d.v.GetCountry() == g_s[2],
            "title, language and country of the last such children");
  vf_cover(!r && st.headers && st.str && g_d.v.GetCountry() == st.str, "country");
}
static Slot<Tags::SimpleTag> g_t;
static bool TagInv() {
  return g_t.v.m_tag_name == g_s[0] && g_t.v.m_tag_string == g_s[1];
}
static void TagAny() {
  g_s[0] = g_t.v.m_tag_name = SomeStr();
  g_s[1] = g_t.v.m_tag_string = SomeStr();
}
static bool TagChild(const Elem& e) {
  if (e.size == 0) return true;
  if (e.id == 0x45A3) g_s[0] = st.str;
  else if (e.id == 0x4487) g_s[1] = st.str;
  else return true;
  return !e.bad;
}
//@ proof simple_tag_step functions=Tags::SimpleTag::Parse contracts=step kind=proof bound=""
VF_PROOF(simple_tag_step) {
  BeginStep(TagInv, TagAny, TagChild, None);
  g_t.v.Init();
  long r = g_t.v.Parse(&g_file, kBase, s.size);
  bool done = StepDone();
  ENSURES((r == 0) == done && r <= 0, "exactly well-formed tags accepted");
  if (!r)
    ENSURES(g_t.v.GetTagName() == g_s[0] && g_t.v.GetTagString() == g_s[1],
            "name and value of the last such children");
  vf_cover(!r && st.headers && st.str && g_t.v.GetTagString() == st.str, "value");
}
static Slot<Chapters::Atom> g_a;
static unsigned long long g_uid;
static long long g_start = -1, g_stop = -1;
static bool AtomInv() {
  const Chapters::Atom& a = g_a.v;
  return a.m_string_uid == g_s[0] && a.m_uid == g_uid &&
         a.m_start_timecode == g_start && a.m_stop_timecode == g_stop;
}
static void AtomAny() {
  Chapters::Atom& a = g_a.v;
  g_s[0] = a.m_string_uid = SomeStr();
  g_uid = a.m_uid = vf_havoc_u64();
  g_start = a.m_start_timecode = (long long)vf_havoc_u64();
  g_stop = a.m_stop_timecode = (long long)vf_havoc_u64();
}
static bool AtomChild(const Elem& e) {
  if (e.size == 0) return true;
  if (e.id == 0x80) return !e.bad;
  if (e.id == 0x5654) {
    g_s[0] = st.str;
    return !e.bad;
  }
  if (e.id == 0x73C4) g_uid = e.u;
  else if (e.id == 0x91) g_start = (long long)e.u;
  else if (e.id == 0x92) g_stop = (long long)e.u;
  else return true;
  return UintOk(e) && (e.id == 0x73C4 || (long long)e.u >= 0);
}
// contract of the display parser
static long DisplayC(Chapters::Display* d, IMkvReader* r, long long pos,
                     long long size) {
  ENSURES(r == &g_file, "reader");
  ENSURES(!d->m_string && !d->m_language && !d->m_country, "starts empty");
  return Payload(pos, size) ? 0 : kInvalid;
}
VF_CONTRACT(disp, disp, &Chapters::Display::Parse, &DisplayC)
static int g_disp;
static long ParseDisplayC(Chapters::Atom*, IMkvReader* r, long long pos,
                          long long size) {
  ENSURES(r == &g_file, "reader");
  ++g_disp;
  return Payload(pos, size) ? 0 : kInvalid;
}
VF_CONTRACT(pdisp, pdisp, &Chapters::Atom::ParseDisplay, &ParseDisplayC)
//@ proof atom functions=Chapters::Atom::Parse contracts=dec,pdisp
VF_PROOF(atom) {
  Begin(3, None, [](long long id) { return id == 0x5654; });
#ifdef VF_NATIVE
  for (int k = 0; k < 3; ++k) REQUIRES(s.e[k].id != 0x80);
#endif
  int disp = 0;
  static Slot<Chapters::Atom> slot;
  Chapters::Atom& a = slot.v;
  a.Init();
  long st = a.Parse(&g_file, kBase, s.size);
  bool ok = true;
  const Elem* suid = nullptr;
  unsigned long long uid = 0;
  long long start = -1, stop = -1;
  for (int k = 0; k < s.n; ++k) {
    const Elem& e = s.e[k];
    if (!Whole(k)) ok = false;
    if (e.size == 0) continue;
    if (e.id == 0x80) {
      ++disp;
      if (e.bad) ok = false;
    } else if (e.id == 0x5654) {
      suid = &e;
      if (e.bad) ok = false;
    } else if (e.id == 0x73C4) {
      uid = e.u;
      if (!UintOk(e)) ok = false;
    } else if (e.id == 0x91) {
      start = (long long)e.u;
      if (!UintOk(e) || start < 0) ok = false;
    } else if (e.id == 0x92) {
      stop = (long long)e.u;
      if (!UintOk(e) || stop < 0) ok = false;
    }
  }
  ENSURES((st == 0) == ok, "exactly well-formed chapters are accepted");
  ENSURES(st <= 0, "errors are negative");
  if (!st) {
    ENSURES(OptStr(a.GetStringUID(), suid), "chapter string UID");
    ENSURES(a.GetUID() == uid, "chapter UID");
    ENSURES(a.GetStartTimecode() == start, "chapter start");
    ENSURES(a.GetStopTimecode() == stop, "chapter end");
#ifndef VF_NATIVE
    ENSURES(g_disp == disp, "each display is read");
#endif
    vf_cover(suid && uid && start > 0, "all fields");
  }
  a.Clear();
}
//@ proof atom_step functions=Chapters::Atom::Parse contracts=step,pdisp kind=proof bound=""
VF_PROOF(atom_step) {
  BeginStep(AtomInv, AtomAny, AtomChild, None);
  g_a.v.Init();
  long r = g_a.v.Parse(&g_file, kBase, s.size);
  bool done = StepDone();
  ENSURES((r == 0) == done && r <= 0, "exactly well-formed chapters accepted");
  if (!r)
    ENSURES(g_a.v.GetStringUID() == g_s[0] && g_a.v.GetUID() == g_uid &&
                g_a.v.GetStartTimecode() == g_start &&
                g_a.v.GetStopTimecode() == g_stop,
            "UIDs, start and end of the last such children");
  ENSURES(g_disp == (st.headers && s.e[0].id == 0x80 && s.e[0].size > 0 &&
                     s.e[0].pay <= kBase + s.size),
          "each display is read");
  vf_cover(!r && st.headers && g_uid > 77, "accepted");
}
// Containers: `want` marks the child that is collected.  Each child's parser
// is used through its contract, which stores the child's value in the object.
struct Layout {
  int n;
  long long id[4];
  long idlen[4], size[4], cut;
};
static void Start(const Layout& l) {
  BeginFixed(l.n, l.idlen, l.size, l.cut, true, l.id);
#ifdef VF_NATIVE
  for (int k = 0; k < l.n; ++k) {  // masters are replayed empty
    s.e[k].bad = false;
    REQUIRES(false);
  }
#endif
}
static int g_nth;
static bool Content(const Layout& l, long long want, uint64_t* u, int& m) {
  bool ok = l.cut == 0;
  m = 0;
  for (int k = 0; k < l.n; ++k)
    if (l.id[k] == want && l.size[k] > 0) {
      if (s.e[k].bad) ok = false;
      u[m++] = s.e[k].u;
    }
  return ok;
}
static Layout All(int n, long long id, long idlen, long cut = 0) {
  return {n, {id, id, id, id}, {idlen, idlen, idlen, idlen}, {3, 1, 9, 6}, cut};
}
// something else first, an empty child of the kind second
static Layout Mixed(long long id, long idlen) {
  return {4, {0xEC, id, id, id}, {1, idlen, idlen, idlen}, {5, 0, 2, 1}, 0};
}
static char g_char[4];
static long DispTagC(Chapters::Display* d, IMkvReader* r, long long pos,
                     long long size) {
  if (DisplayC(d, r, pos, size)) return kInvalid;
  uint64_t u = s.cur->u;
  d->m_string = &g_char[u & 3];
  d->m_language = &g_char[(u >> 2) & 3];
  d->m_country = &g_char[(u >> 4) & 3];
  return 0;
}
VF_CONTRACT(dispn, disp, &Chapters::Display::Parse, &DispTagC)
static void Displays(const Layout& l) {
  Start(l);
  static Slot<Chapters::Atom> slot;
  Chapters::Atom& a = slot.v;
  a.Init();
  long st = a.Parse(&g_file, kBase, s.size);
  uint64_t u[4];
  int m;
  bool ok = Content(l, 0x80, u, m);
  ENSURES((st == 0) == ok, "exactly well-formed chapters are accepted");
  if (!st) {
    ENSURES(a.GetDisplayCount() == m, "number of displays");
    for (int i = 0; i < 5; ++i) {
      const Chapters::Display* d = a.GetDisplay(i);
      ENSURES((d != nullptr) == (i < m), "display by index");
      if (d)
        ENSURES(d->GetString() == &g_char[u[i] & 3] &&
                    d->GetLanguage() == &g_char[(u[i] >> 2) & 3] &&
                    d->GetCountry() == &g_char[(u[i] >> 4) & 3],
                "displays in file order, complete");
    }
    ENSURES(!a.GetDisplay(-1), "no negative index");
  }
}
//@ proof displays4 functions=Chapters::Atom::ParseDisplay,Chapters::Atom::ExpandDisplaysArray contracts=dec,dispn bound="4 displays"
VF_PROOF(displays4) { Displays(All(4, 0x80, 1)); }
//@ proof displays_mixed functions=Chapters::Atom::ParseDisplay contracts=dec,dispn bound="4 children"
VF_PROOF(displays_mixed) { Displays(Mixed(0x80, 1)); }
//@ proof displays_cut functions=Chapters::Atom::ParseDisplay contracts=dec,dispn bound="2 displays, the last cut short"
VF_PROOF(displays_cut) { Displays(All(2, 0x80, 1, 1)); }

static Slot<Chapters::Display> g_display;
static long AtomC(Chapters::Atom* a, IMkvReader* r, long long pos,
                  long long size) {
  ENSURES(r == &g_file, "reader");
  ENSURES(!a->m_string_uid && !a->m_displays && a->m_uid == 0 &&
              a->m_start_timecode == -1 && a->m_stop_timecode == -1 &&
              a->m_displays_count == 0 && a->m_displays_size == 0,
          "starts empty");
  if (!Payload(pos, size)) return kInvalid;
  uint64_t u = s.cur->u;
  a->m_uid = u;
  a->m_start_timecode = (long long)(u >> 1);
  a->m_stop_timecode = (long long)(u >> 2);
  a->m_string_uid = &g_char[u & 3];
  a->m_displays = &g_display.v;
  a->m_displays_size = a->m_displays_count = 1 + (int)(u & 7);
  return 0;
}
VF_CONTRACT(atoms, atom, &Chapters::Atom::Parse, &AtomC)
static void Atoms(const Layout& l) {
  Start(l);
  static Slot<Chapters::Edition> slot;
  Chapters::Edition& e = slot.v;
  e.Init();
  long st = e.Parse(&g_file, kBase, s.size);
  uint64_t u[4];
  int m;
  bool ok = Content(l, 0xB6, u, m);
  ENSURES((st == 0) == ok, "exactly well-formed editions are accepted");
  if (!st) {
    ENSURES(e.GetAtomCount() == m, "number of chapters");
    for (int i = 0; i < 5; ++i) {
      const Chapters::Atom* a = e.GetAtom(i);
      ENSURES((a != nullptr) == (i < m), "chapter by index");
      if (!a) continue;
      ENSURES(a->GetUID() == u[i] && a->GetStringUID() == &g_char[u[i] & 3] &&
                  a->GetStartTimecode() == (long long)(u[i] >> 1) &&
                  a->GetStopTimecode() == (long long)(u[i] >> 2) &&
                  a->GetDisplayCount() == 1 + (int)(u[i] & 7) &&
                  a->GetDisplay(0) == &g_display.v,
              "chapters in file order, complete");
    }
    ENSURES(!e.GetAtom(-1), "no negative index");
  }
}
//@ proof atoms4 functions=Chapters::Edition::Parse,Chapters::Edition::ExpandAtomsArray contracts=dec,atoms bound="4 chapters"
VF_PROOF(atoms4) { Atoms(All(4, 0xB6, 1)); }
//@ proof atoms_mixed functions=Chapters::Edition::Parse contracts=dec,atoms bound="4 children"
VF_PROOF(atoms_mixed) { Atoms(Mixed(0xB6, 1)); }
//@ proof atoms_cut functions=Chapters::Edition::Parse contracts=dec,atoms bound="2 chapters, the last cut short"
VF_PROOF(atoms_cut) { Atoms(All(2, 0xB6, 1, 2)); }

static Slot<Chapters::Atom> g_atom[4];
static long EditionC(Chapters::Edition* e, IMkvReader* r, long long pos,
                     long long size) {
  ENSURES(r == &g_file, "reader");
  ENSURES(!e->m_atoms && !e->m_atoms_size && !e->m_atoms_count, "starts empty");
  if (!Payload(pos, size)) return kInvalid;
  e->m_atoms = &g_atom[s.cur->u & 3].v;
  e->m_atoms_size = e->m_atoms_count = 1 + (int)(s.cur->u >> 40);
  return 0;
}
VF_CONTRACT(eds, ed, &Chapters::Edition::Parse, &EditionC)
static void Editions(const Layout& l) {
  Start(l);
  static Slot<Chapters> slot;
  Chapters& c = *new (&slot.v) Chapters(Seg(), kBase, s.size, 900, 5000);
  long st = c.Parse();
  uint64_t u[4];
  int m;
  bool ok = Content(l, 0x45B9, u, m);
  ENSURES((st == 0) == ok, "exactly well-formed chapters are accepted");
  if (!st) {
    ENSURES(c.GetEditionCount() == m, "number of editions");
    for (int i = 0; i < 5; ++i) {
      const Chapters::Edition* e = c.GetEdition(i);
      ENSURES((e != nullptr) == (i < m), "edition by index");
      if (e) ENSURES(e->GetAtomCount() == 1 + (int)(u[i] >> 40) &&
                         e->m_atoms == &g_atom[u[i] & 3].v,
                     "editions in file order, complete");
    }
    ENSURES(!c.GetEdition(-1), "no negative index");
  }
}
//@ proof editions4 functions=Chapters::Parse,Chapters::ExpandEditionsArray contracts=dec,eds bound="4 editions"
VF_PROOF(editions4) { Editions(All(4, 0x45B9, 2)); }
//@ proof editions_mixed functions=Chapters::Parse contracts=dec,eds bound="4 children"
VF_PROOF(editions_mixed) { Editions(Mixed(0x45B9, 2)); }
//@ proof editions_cut functions=Chapters::Parse contracts=dec,eds bound="2 editions, the last cut short"
VF_PROOF(editions_cut) { Editions(All(2, 0x45B9, 2, 1)); }

static long SimpleC(Tags::SimpleTag* t, IMkvReader* r, long long pos,
                    long long size) {
  ENSURES(r == &g_file, "reader");
  ENSURES(!t->m_tag_name && !t->m_tag_string, "starts empty");
  if (!Payload(pos, size)) return kInvalid;
  t->m_tag_name = new char[1];
  t->m_tag_name[0] = (char)s.cur->u;
  t->m_tag_string = new char[1];
  t->m_tag_string[0] = (char)(s.cur->u >> 1);
  return 0;
}
VF_CONTRACT(simple, tag, &Tags::SimpleTag::Parse, &SimpleC)
static void SimpleTags(const Layout& l) {
  Start(l);
  static Slot<Tags::Tag> slot;
  Tags::Tag& t = slot.v;
  t.Init();
  long st = t.Parse(&g_file, kBase, s.size);
  uint64_t u[4];
  int m;
  bool ok = Content(l, 0x67C8, u, m);
  ENSURES((st == 0) == ok, "exactly well-formed tags are accepted");
  if (!st) {
    ENSURES(t.GetSimpleTagCount() == m, "number of simple tags");
    for (int i = 0; i < 5; ++i) {
      const Tags::SimpleTag* p = t.GetSimpleTag(i);
      ENSURES((p != nullptr) == (i < m), "simple tag by index");
      if (p) ENSURES(p->GetTagName()[0] == (char)u[i] &&
                         p->GetTagString()[0] == (char)(u[i] >> 1),
                     "simple tags in file order, complete");
    }
    ENSURES(!t.GetSimpleTag(-1), "no negative index");
  }
  t.Clear();
}
//@ proof simple_tags4 functions=Tags::Tag::Parse,Tags::Tag::ExpandSimpleTagsArray contracts=dec,simple bound="4 simple tags"
VF_PROOF(simple_tags4) { SimpleTags(All(4, 0x67C8, 2)); }
//@ proof simple_tags_mixed functions=Tags::Tag::Parse contracts=dec,simple bound="4 children"
VF_PROOF(simple_tags_mixed) { SimpleTags(Mixed(0x67C8, 2)); }
//@ proof simple_tags_cut functions=Tags::Tag::Parse contracts=dec,simple bound="2 simple tags, the last cut short"
VF_PROOF(simple_tags_cut) { SimpleTags(All(2, 0x67C8, 2, 1)); }

static Slot<Tags::SimpleTag> g_simple[4];
static long TagC(Tags::Tag* t, IMkvReader* r, long long pos, long long size) {
  ENSURES(r == &g_file, "reader");
  ENSURES(!t->m_simple_tags && !t->m_simple_tags_size &&
              !t->m_simple_tags_count, "starts empty");
  if (!Payload(pos, size)) return kInvalid;
  t->m_simple_tags = &g_simple[s.cur->u & 3].v;
  t->m_simple_tags_size = t->m_simple_tags_count = 1 + (int)(s.cur->u >> 40);
  return 0;
}
VF_CONTRACT(tag, tag, &Tags::Tag::Parse, &TagC)
static void AllTags(const Layout& l) {
  Start(l);
  static Slot<Tags> slot;
  Tags& t = *new (&slot.v) Tags(Seg(), kBase, s.size, 900, 5000);
  long st = t.Parse();
  uint64_t u[4];
  int m;
  bool ok = Content(l, 0x7373, u, m);
  ENSURES((st == 0) == ok, "exactly well-formed tags are accepted");
  if (!st) {
    ENSURES(t.GetTagCount() == m, "number of tags");
    for (int i = 0; i < 5; ++i) {
      const Tags::Tag* p = t.GetTag(i);
      ENSURES((p != nullptr) == (i < m), "tag by index");
      if (p) ENSURES(p->GetSimpleTagCount() == 1 + (int)(u[i] >> 40) &&
                         p->m_simple_tags == &g_simple[u[i] & 3].v,
                     "tags in file order, complete");
    }
    ENSURES(!t.GetTag(-1), "no negative index");
  }
}
//@ proof tags4 functions=Tags::Parse,Tags::ExpandTagsArray contracts=dec,tag bound="4 tags"
VF_PROOF(tags4) { AllTags(All(4, 0x7373, 2)); }
//@ proof tags_mixed functions=Tags::Parse contracts=dec,tag bound="4 children"
VF_PROOF(tags_mixed) { AllTags(Mixed(0x7373, 2)); }
//@ proof tags_cut functions=Tags::Parse contracts=dec,tag bound="2 tags, the last cut short"
VF_PROOF(tags_cut) { AllTags(All(2, 0x7373, 2, 1)); }

// chapter times in nanoseconds
//@ proof chapter_time bound="timecode scales 1, 1000 and 1000000" functions=Chapters::Atom::GetTime,Chapters::Atom::GetStartTime,Chapters::Atom::GetStopTime
VF_PROOF(chapter_time) {
  static Slot<SegmentInfo> info;
  static Slot<Chapters::Atom> atom;
  Segment* seg = Seg();
  seg->m_pInfo = &info.v;
  atom.v.m_start_timecode = vf_nondet_i64();
  atom.v.m_stop_timecode = vf_nondet_i64();
  long long a = atom.v.m_start_timecode, b = atom.v.m_stop_timecode;
  REQUIRES(a <= LLONG_MAX / 1000000 && b <= LLONG_MAX / 1000000);
  static Slot<Chapters> slot;
  Chapters& c = *new (&slot.v) Chapters(seg, kBase, 10, 900, 5000);
  ENSURES(atom.v.GetStartTime(nullptr) == -1, "no chapters");
  static const long long scales[4] = {1, 1000, 1000000, 0};
  for (int i = 0; i < 4; ++i) {
    info.v.m_timecodeScale = scales[i];
    long long x = atom.v.GetStartTime(&c), y = atom.v.GetStopTime(&c);
    if (i == 3) {
      ENSURES(x == -1 && y == -1, "no scale");
      return;
    }
    ENSURES(x == (a < 0 ? -1 : a * scales[i]), "chapter start time");
    ENSURES(y == (b < 0 ? -1 : b * scales[i]), "chapter end time");
  }
}
