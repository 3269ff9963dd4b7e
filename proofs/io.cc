//@ file property=C09 src=mkv,wp,vtt,common unwind=10 unwind_cap=20 contracts=io
// File-backed readers and writers, over the contracts of the C stdio functions.
#include "ebml_spec.h"
#include "slot.h"
#include "common/libwebm_util.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
#include "webm/buffer_reader.h"
#include "webm/file_reader.h"
#include "webvtt/vttreader.h"
#include <cstdio>

// The file: `size` bytes of which those before `stop` can be transferred (end
// of file, I/O error or full disk there).
struct Ghost {
  uint64_t pos, size, stop;
  bool seek_ok, tell_ok, error;
  uint8_t* base;  // transfers must fill the caller's buffer from here on
  uint64_t moved;
  int opened, closed;
  bool open_ok;
};
static Ghost G;
#ifdef VF_NATIVE
#include <sys/types.h>
static ssize_t CRead(void*, char* b, size_t n) {
  uint64_t k = G.pos < G.stop ? G.stop - G.pos : 0;
  if (n < k) k = n;
  if (!k && G.error) return -1;
  G.pos += k;
  G.moved += k;
  return (ssize_t)k;
}
static ssize_t CWrite(void*, const char*, size_t n) {
  uint64_t k = G.pos < G.stop ? G.stop - G.pos : 0;
  if (n < k) k = n;
  G.pos += k;
  G.moved += k;
  return (ssize_t)k;
}
static int CSeek(void*, off64_t* off, int whence) {
  if (!G.seek_ok) return -1;
  if (whence == SEEK_CUR && *off == 0 && !G.tell_ok) return -1;
  uint64_t p = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? G.pos : G.size;
  G.pos = p + (uint64_t)*off;
  *off = (off64_t)G.pos;
  return 0;
}
static int CClose(void*) {
  ++G.closed;
  return 0;
}
static FILE* TheFile() {
  cookie_io_functions_t f = {CRead, CWrite, CSeek, CClose};
  FILE* p = fopencookie(nullptr, "r+", f);
  setvbuf(p, nullptr, _IONBF, 0);
  return p;
}
#else
static char vf_file[512];
static FILE* TheFile() { return (FILE*)vf_file; }
static uint64_t Transfer(void* buf, uint64_t k, FILE* f) {
  ENSURES(f == TheFile() && !G.closed, "uses the open file");
  ENSURES(vf_r_ok(buf, k), "stays inside the buffer");
  if (G.base) ENSURES(buf == G.base + G.moved, "uses the caller's buffer");
  uint64_t n = G.pos < G.stop ? G.stop - G.pos : 0;
  if (k < n) n = k;
  G.pos += n;
  G.moved += n;
  return n;
}
static size_t FreadC(void* b, size_t s, size_t n, FILE* f) {
  return s ? Transfer(b, s * n, f) / s : 0;
}
static size_t FwriteC(const void* b, size_t s, size_t n, FILE* f) {
  return s ? Transfer(const_cast<void*>(b), s * n, f) / s : 0;
}
static int Seek(FILE* f, long off, int whence) {
  ENSURES(f == TheFile() && !G.closed, "uses the open file");
  if (!G.seek_ok) return -1;
  uint64_t p = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? G.pos : G.size;
  if ((int64_t)(p + (uint64_t)off) < 0) return -1;
  G.pos = p + (uint64_t)off;
  return 0;
}
static long Tell(FILE*) {
  return G.tell_ok && G.seek_ok ? (long)G.pos : -1L;
}
static int Close(FILE* f) {
  ENSURES(f == TheFile() && !G.closed, "closes the open file");
  ++G.closed;
  return 0;
}
static int Getc(FILE* f) {
  ENSURES(f == TheFile(), "uses the open file");
  if (G.pos >= G.stop) return EOF;
  ++G.pos;
  return (int)(G.pos & 0xff);
}
static int Ferror(FILE*) { return G.error; }
static int Feof(FILE*) { return !G.error; }
static void Clearerr(FILE*) {}
static int Putc(int c, FILE* f) {
  ENSURES(f == TheFile(), "uses the open file");
  if (G.pos >= G.stop) return EOF;
  ++G.pos;
  ++G.moved;
  G.opened = (uint8_t)c;
  return (uint8_t)c;
}
VF_CONTRACT(io, fread, &fread, &FreadC)
VF_CONTRACT(io, fwrite, &fwrite, &FwriteC)
VF_CONTRACT(io, fseek, &fseek, &Seek)
VF_CONTRACT(io, fseeko, &fseeko, &Seek)
VF_CONTRACT(io, ftell, &ftell, &Tell)
VF_CONTRACT(io, ftello, &ftello, &Tell)
VF_CONTRACT(io, fclose, &fclose, &Close)
VF_CONTRACT(io, fgetc, &fgetc, &Getc)
VF_CONTRACT(io, getc, &getc, &Getc)
VF_CONTRACT(io, ferror, &ferror, &Ferror)
VF_CONTRACT(io, feof, &feof, &Feof)
VF_CONTRACT(io, clearerr, &clearerr, &Clearerr)
VF_CONTRACT(io, fputc, &fputc, &Putc)
VF_CONTRACT(io, putc, &putc, &Putc)
#endif
static const uint64_t kMax = 1ull << 24;
static void Setup(uint64_t size_max) {
  G.size = vf_range(0, size_max);
  G.stop = vf_range(0, G.size);
  G.pos = 0;
  G.seek_ok = G.tell_ok = true;
  G.error = vf_nondet_bool();
  G.base = nullptr;
  G.moved = 0;
  G.opened = G.closed = 0;
}
//@ proof mkvreader functions=MkvReader::Read,MkvReader::Length,MkvReader::GetFileSize
VF_PROOF(mkvreader) {
  Setup(1ull << 62);
  bool sizable = vf_nondet_bool();
  G.tell_ok = sizable;
  mkvparser::MkvReader r(TheFile());
  long long total = -7, avail = -7;
  if (!sizable) return;
  ENSURES(r.Length(&total, &avail) == 0 && total == (long long)G.size &&
              avail == (long long)G.size,
          "length of the file");
  G.pos = vf_range(0, 1ull << 62);
  G.seek_ok = vf_nondet_bool();
  uint64_t n = vf_range(0, kMax);
  int64_t off = vf_nondet_i64();
  long len = vf_nondet_bool() ? (long)n : -(long)n;
  G.base = (uint8_t*)vf_alloc(n);
  G.moved = 0;
  int got = r.Read(off, len, G.base);
  bool ok = len == 0 ? off >= 0
                     : len > 0 && off >= 0 && (uint64_t)off < G.stop &&
                           n <= G.stop - (uint64_t)off && G.seek_ok;
  ENSURES((got == 0) == ok, "a range inside the file is read, any other refused");
  if (ok && len > 0)
    ENSURES(G.moved == n && G.pos == (uint64_t)off + n,
            "exactly the bytes at the requested position");
  vf_cover(ok && n > 5, "read");
}
//@ proof mkvreader_closed functions=MkvReader::Read,MkvReader::Length,MkvReader::Close
VF_PROOF(mkvreader_closed) {
  Setup(kMax);
  {
    mkvparser::MkvReader r(TheFile());
  }
  ENSURES(G.closed == 0, "a file of the caller stays open");
  mkvparser::MkvReader r(TheFile());
  r.Close();
  ENSURES(G.closed == 1, "closed");
  uint8_t b[4];
  long long t;
  ENSURES(r.Read(0, 4, b) != 0 && r.Length(&t, &t) != 0 && G.moved == 0,
          "a closed reader refuses");
}
//@ proof mkvwriter functions=MkvWriter::Write,MkvWriter::Position
VF_PROOF(mkvwriter) {
  Setup(1ull << 62);
  mkvmuxer::MkvWriter w(TheFile());
  int64_t at = (int64_t)vf_range(0, 1ull << 62);
  G.seek_ok = vf_nondet_bool();
  int r = w.Position(at);
  ENSURES((r == 0) == G.seek_ok, "a failed seek is reported");
  if (r != 0) return;
  ENSURES(w.Position() == at && w.Seekable(), "moves to the position");
  uint32_t n = (uint32_t)vf_range(0, kMax);
  G.base = (uint8_t*)vf_alloc(n);
  G.moved = 0;
  int32_t res = w.Write(G.base, n);
  bool fits = n == 0 || ((uint64_t)at < G.stop && n <= G.stop - (uint64_t)at);
  ENSURES((res == 0) == fits, "success means every byte was written");
  if (fits)
    ENSURES(G.moved == n && w.Position() == at + (int64_t)n,
            "exactly the bytes, at the position");
  ENSURES(w.Write(nullptr, 1) != 0, "absent data is refused");
  vf_cover(fits && n > 5, "written");
}
//@ proof mkvwriter_closed functions=MkvWriter::Write,MkvWriter::Position,MkvWriter::Close
VF_PROOF(mkvwriter_closed) {
  Setup(kMax);
  {
    mkvmuxer::MkvWriter w(TheFile());
    w.Close();
    uint8_t b[2] = {1, 2};
    ENSURES(w.Write(b, 2) != 0 && w.Position(0) != 0 && G.moved == 0,
            "a closed writer refuses");
  }
  ENSURES(G.closed == 0, "a file of the caller stays open");
}
//@ proof filereader functions=FileReader::Read,FileReader::Position
VF_PROOF(filereader) {
  Setup(1ull << 62);
  webm::FileReader r(TheFile());
  for (int i = 0; i < 2; ++i) {
    uint64_t n = vf_range(1, kMax), got = 99;
    uint64_t before = G.pos, left = G.pos < G.stop ? G.stop - G.pos : 0;
    G.base = (uint8_t*)vf_alloc(n);
    G.moved = 0;
    webm::Status st = r.Read(n, G.base, &got);
    uint64_t want = n < left ? n : left;
    ENSURES(got == want && G.pos == before + want && r.Position() == G.pos,
            "as many bytes as there are, counted");
    ENSURES(st.code == (want == n    ? webm::Status::kOkCompleted
                        : want == 0 ? webm::Status::kEndOfFile
                                    : webm::Status::kOkPartial),
            "completed, partial or at the end");
  }
}
//@ proof filereader_skip functions=FileReader::Skip
VF_PROOF(filereader_skip) {
  Setup(1ull << 62);
  webm::FileReader r(TheFile());
  G.seek_ok = vf_nondet_bool();
  uint64_t n = vf_nondet_u64(), got = 99, before = G.pos;
  REQUIRES(n > 0);
  webm::Status st = r.Skip(n, &got);
  ENSURES(got <= n && G.pos == before + got && r.Position() == G.pos,
          "moves by the number of bytes reported");
  if (st.code == webm::Status::kOkCompleted)
    ENSURES(got == n, "completed");
  else if (st.code == webm::Status::kOkPartial)
    ENSURES(got > 0 && got < n, "partial");
  else
    ENSURES(st.code == webm::Status::kEndOfFile && got == 0 && G.stop == 0,
            "at the end");
}
//@ proof filereader_seek functions=FileReader::Seek
VF_PROOF(filereader_seek) {
  Setup(1ull << 62);
  webm::FileReader r(TheFile());
  G.seek_ok = vf_nondet_bool();
  uint64_t to = vf_range(0, 1ull << 62);
  webm::Status st = r.Seek(to);
  ENSURES(st.code == (G.seek_ok ? webm::Status::kOkCompleted
                                : webm::Status::kSeekFailed) &&
              r.Position() == (G.seek_ok ? to : 0) && G.pos == r.Position(),
          "moves to the position or says it did not");
}
//@ proof bufferreader kind=bounded bound="buffers of 6 bytes, 3 operations" cdefine=VF_MEM_BYTEWISE functions=BufferReader::Read,BufferReader::Skip,BufferReader::Position
VF_PROOF(bufferreader) {
  uint8_t d[6];
  for (int i = 0; i < 6; ++i) d[i] = vf_nondet_u8();
  webm::BufferReader r{d[0], d[1], d[2], d[3], d[4], d[5]};
  uint64_t pos = 0;
  for (int i = 0; i < 3; ++i) {
    bool skip = vf_nondet_bool();
    uint64_t n = skip ? vf_nondet_u64() : vf_range(1, 8);
    REQUIRES(n > 0);
    uint64_t want = n < 6 - pos ? n : 6 - pos, got = 99;
    uint8_t b[8];
    webm::Status st = skip ? r.Skip(n, &got) : r.Read(n, b, &got);
    ENSURES(got == want, "as many bytes as there are, counted");
    ENSURES(st.code == (want == n    ? webm::Status::kOkCompleted
                        : want == 0 ? webm::Status::kEndOfFile
                                    : webm::Status::kOkPartial),
            "completed, partial or at the end");
    for (unsigned k = 0; k < 6; ++k)
      if (!skip && k < want) ENSURES(b[k] == d[pos + k], "the bytes in order");
    pos += want;
    ENSURES(r.Position() == pos && r.size() == 6, "position");
  }
}
//@ proof vttreader functions=VttReader::GetChar
VF_PROOF(vttreader) {
  Setup(1ull << 62);
  libwebvtt::VttReader r;
  char c = 'x';
  ENSURES(r.GetChar(&c) == -1, "a closed reader refuses");
  r.file_ = TheFile();
  G.pos = vf_range(0, 1ull << 62);
  bool more = G.pos < G.stop;
  int res = r.GetChar(&c);
  ENSURES(res == (more ? 0 : G.error ? -1 : 1), "a character, the end, an error");
#ifndef VF_NATIVE
  if (more) ENSURES((uint8_t)c == (uint8_t)G.pos, "the next character");
#endif
  ENSURES(r.GetChar(nullptr) == -1, "absent argument");
  r.Close();
  ENSURES(G.closed == 1 && r.GetChar(&c) == -1, "closed");
}
//@ proof writebyte functions=WriteUint8
VF_PROOF(writebyte) {
  Setup(1ull << 62);
  uint8_t v = vf_nondet_u8();
  bool more = G.pos < G.stop;
  bool ok = libwebm::WriteUint8(v, TheFile());
  ENSURES(ok == more, "success means the byte was written");
#ifndef VF_NATIVE
  if (ok) ENSURES(G.moved == 1 && G.opened == v, "the byte");
#endif
  ENSURES(!libwebm::WriteUint8(v, nullptr), "absent file");
}
