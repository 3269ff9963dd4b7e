From 45eb2e69356bdf4aa89fa08ed43c17ce0fcc8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:23 +0000
Subject: [PATCH 01/26] fix: report every failed write in SerializeInt and
 SerializeFloat

IMkvWriter::Write returns 0 on success; a positive error code was ignored
here (unlike everywhere else), so the muxer went on after a failed write.
---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..8276577 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
-- 
2.43.0


From 8020e823329ac0bbccbeb5dad6522d9a369d9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 02/26] fix: reject unrepresentable values in WriteUIntSize
 with size 0

The width search ran past 8 octets (signed overflow in bit - 2) and then
returned false, i.e. 0, reporting success without writing anything.
---
 mkvmuxer/mkvmuxerutil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 8276577..1561327 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -401,12 +401,10 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
       if (value <= max)
         break;
 
-      ++size;
+      if (++size > 8)
+        return -1;
     }
 
-    if (size > 8)
-      return false;
-
     value |= bit;
   }
 
-- 
2.43.0


From 9401873288953ae668e3493cca8e9dc85e2a7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 03/26] fix: reject fixed element sizes above 8 octets in
 WriteEbmlElement

The payload width was truncated to int32 after the full value had been
written as the element size, so the declared and actual sizes differed.
---
 mkvmuxer/mkvmuxerutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 1561327..3102c56 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -449,7 +449,7 @@ bool WriteEbmlElement(IMkvWriter* writer, uint64 type, uint64 value,
 
   uint64 size = GetUIntSize(value);
   if (fixed_size > 0) {
-    if (size > fixed_size)
+    if (size > fixed_size || fixed_size > 8)
       return false;
     size = fixed_size;
   }
-- 
2.43.0


From 45de53382a4b3b50df67582a924187d0c793e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:15 +0000
Subject: [PATCH 04/26] fix: accept mastering metadata that has a maximum
 luminance only

---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..cc30577 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -999,7 +999,8 @@ bool MasteringMetadata::Valid() const {
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From 87fd7e3a4b9e5bf67a921a2307600f958a32f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:16 +0000
Subject: [PATCH 05/26] fix: report a failed write of the segment date

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index cc30577..549fb13 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2995,8 +2995,10 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN) {
+    if (!WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_))
+      return false;
+  }
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From a8a5885442c629f5e59110dc9b07eb5b0780f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 06/26] fix: compute the size of a SimpleBlock in 64 bits

---
 mkvmuxer/mkvmuxerutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 3102c56..2a8b8dc 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -155,7 +155,7 @@ uint64 WriteSimpleBlock(IMkvWriter* writer, const Frame* const frame,
   if (WriteID(writer, libwebm::kMkvSimpleBlock))
     return 0;
 
-  const int32 size = static_cast<int32>(frame->length()) + 4;
+  const uint64 size = frame->length() + 4;
   if (WriteUInt(writer, size))
     return 0;
 
-- 
2.43.0


From e9c77dcbace45c5db2d2d4d9138f1cbca8f9fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 07/26] fix: do not use unread bytes when a value is read short

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..fa061dc 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)  // interpreted as "underflow"
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)  // interpreted as "underflow"
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)  // interpreted as "underflow"
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)  // interpreted as "underflow"
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
-- 
2.43.0


From 05d4ec502624b5f1f502f2cb0fec598f3ff33b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:05 +0000
Subject: [PATCH 08/26] fix: report that no bytes were read for an empty float
 element

---
 webm_parser/src/float_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/webm_parser/src/float_parser.cc b/webm_parser/src/float_parser.cc
index fc46860..302643f 100644
--- a/webm_parser/src/float_parser.cc
+++ b/webm_parser/src/float_parser.cc
@@ -46,6 +46,8 @@ Status FloatParser::Feed(Callback* callback, Reader* reader,
   assert(reader != nullptr);
   assert(num_bytes_read != nullptr);
 
+  *num_bytes_read = 0;
+
   if (num_bytes_remaining_ == 0) {
     return Status(Status::kOkCompleted);
   }
-- 
2.43.0


From d029a9b07620c603c55ae3df8f71d3fe6e83c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:56 +0000
Subject: [PATCH 09/26] fix: report the position of fixed-size laced frames
 after the element header

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From 5e5ff43ba385eedef9396e4fd0c0e47433e9d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 10/26] fix: reject lace sizes whose sum exceeds 64 bits

---
 webm_parser/src/block_parser.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1df0a07..d0797a9 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -9,7 +9,6 @@
 
 #include <cassert>
 #include <cstdint>
-#include <numeric>
 #include <type_traits>
 #include <vector>
 
@@ -224,12 +223,20 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
-        if (sum >= frame_metadata_.parent_element.size) {
+        // Malformed lace sizes can be as large as 2^64 - 1, so their sum could
+        // overflow.
+        if (header_bytes_read_ >= frame_metadata_.parent_element.size) {
           return Status(Status::kInvalidElementValue);
         }
-        lace_sizes_.push_back(frame_metadata_.parent_element.size - sum);
+        std::uint64_t remaining =
+            frame_metadata_.parent_element.size - header_bytes_read_;
+        for (std::uint64_t lace_size : lace_sizes_) {
+          if (lace_size >= remaining) {
+            return Status(Status::kInvalidElementValue);
+          }
+          remaining -= lace_size;
+        }
+        lace_sizes_.push_back(remaining);
         frame_metadata_.position = frame_metadata_.parent_element.position +
                                    frame_metadata_.parent_element.header_size +
                                    header_bytes_read_;
-- 
2.43.0


From 8a0fd6d8b10c7993f8476dd6953327cea0a9bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 11/26] fix: do not skip past the end of a block whose header
 overruns it

---
 webm_parser/src/block_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index d0797a9..5589351 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -246,6 +246,11 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        } else if (header_bytes_read_ == frame_metadata_.parent_element.size) {
+          return Status(Status::kOkCompleted);
+        }
         do {
           // Skip the remaining part of the header and all of the frames.
           status = reader->Skip(
-- 
2.43.0


From 4faf803db2f7b2c021c59eb43b83cb7f1022455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:05 +0000
Subject: [PATCH 12/26] fix: swap all four bytes of a 32-bit value in
 host_to_bigendian

---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0


From 1cd5b7133b5909da4755dda7736420f4acffe79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 13/26] fix: reject an invalid VP9 level that follows a valid
 one in CodecPrivate

---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..c82e4c1 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,6 +179,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool valid_level = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
@@ -186,10 +187,11 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
             return false;
           }
           features->level = priv_level;
+          valid_level = true;
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!valid_level)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From e05aa8f8f9d9dcc5e566e06ab41dda2a0bae9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 14/26] fix: consume the sign bit of VP9 quantizer deltas
 before the tile info

---
 common/vp9_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..6edfee6 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -259,7 +259,7 @@ void Vp9HeaderParser::ParseTileInfo() {
 
 void Vp9HeaderParser::SkipDeltaQ() {
   if (ReadBit())
-    VpxReadLiteral(4);
+    VpxReadLiteral(5);  // Consume delta_q + sign
 }
 
 int Vp9HeaderParser::AlignPowerOfTwo(int value, int n) {
-- 
2.43.0


From f8ca0e1bd91127458a0790b2531a127fa28266d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 15/26] fix: initialize the display size in Vp9HeaderParser

---
 common/vp9_header_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..b9458ab 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,6 +47,8 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
         frame_parallel_mode_(0) {}
-- 
2.43.0


From 4cb1eb4c4e752b3650fceeb138f3caa232cd93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:17 +0000
Subject: [PATCH 16/26] fix: report a file that cannot be sized in
 MkvReader::Open instead of aborting

---
 mkvparser/mkvreader.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 4672604..8d098ef 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -9,8 +9,6 @@
 
 #include <sys/types.h>
 
-#include <cassert>
-
 namespace mkvparser {
 
 MkvReader::MkvReader() : m_file(NULL), reader_owns_file_(true) {}
@@ -60,7 +58,6 @@ bool MkvReader::GetFileSize() {
   fseek(m_file, 0L, SEEK_END);
   m_length = ftell(m_file);
 #endif
-  assert(m_length >= 0);
 
   if (m_length < 0)
     return false;
-- 
2.43.0


From 7b91d53b51d560d15741ee8763a8c979d572983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:17 +0000
Subject: [PATCH 17/26] fix: report a failed seek in MkvReader::Read

---
 mkvparser/mkvreader.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 8d098ef..5fd154e 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -112,21 +112,21 @@ int MkvReader::Read(long long offset, long len, unsigned char* buffer) {
 
 #ifdef _MSC_VER
   const int status = _fseeki64(m_file, offset, SEEK_SET);
-
-  if (status)
-    return -1;  // error
 #elif defined(_WIN32)
-  fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET);
+  const int status = fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET);
 #elif !(defined(__ANDROID__) && __ANDROID_API__ < 24 && !defined(__LP64__) && \
         defined(_FILE_OFFSET_BITS) && _FILE_OFFSET_BITS == 64)
   // POSIX.1 has fseeko and ftello. fseeko and ftello are not available before
   // Android API level 24. See
   // https://android.googlesource.com/platform/bionic/+/main/docs/32-bit-abi.md
-  fseeko(m_file, static_cast<off_t>(offset), SEEK_SET);
+  const int status = fseeko(m_file, static_cast<off_t>(offset), SEEK_SET);
 #else
-  fseek(m_file, static_cast<long>(offset), SEEK_SET);
+  const int status = fseek(m_file, static_cast<long>(offset), SEEK_SET);
 #endif
 
+  if (status)
+    return -1;  // error
+
   const size_t size = fread(buffer, 1, len, m_file);
 
   if (size < size_t(len))
-- 
2.43.0


From 5a2f47dacd8dd7449e1834edf0a591b39e98d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:58 +0000
Subject: [PATCH 18/26] fix: keep the middle PTS bits out of the low PTS bits
 in PES headers

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From 503f9bb5ec2e10e95e3e0633f48355a32edb32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:58 +0000
Subject: [PATCH 19/26] fix: give the TS packet buffer its size before writing
 into it

---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..e428bbd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -150,7 +150,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     if (continuity_counter > 0xf)
-- 
2.43.0


From 99ce627015a4ca28683a59c3feb12f54ac11cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:58 +0000
Subject: [PATCH 20/26] fix: continue the TS continuity counter across PES
 packets

---
 m2ts/vpxpes2ts.cc | 9 ++++-----
 m2ts/vpxpes2ts.h  | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index e428bbd..f00a5b8 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,14 +147,13 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
+    if (continuity_counter_ > 0xf)
+      continuity_counter_ = 0;
 
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
@@ -163,7 +162,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +194,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_++;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..0eba0c4 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -38,6 +38,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Continuity counter of the next TS packet.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From f96b0649343859f4e989b05146a701ea7d926f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:58 +0000
Subject: [PATCH 21/26] fix: remove the escape byte after more than two zero
 bytes in PES payloads

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..87cdb65 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -318,7 +318,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 11cd3291516ccc24fa78f88cd9900b563245dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 22/26] fix: refuse unreadable CodecDelay and SeekPreRoll
 values

The error code of UnserializeUInt() was stored as a 64-bit unsigned value.
---
 mkvparser/mkvparser.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index fa061dc..a664c9a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5928,9 +5928,19 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       if (status)
         return status;
     } else if (id == libwebm::kMkvCodecDelay) {
-      info.codecDelay = UnserializeUInt(pReader, pos, size);
+      const long long delay = UnserializeUInt(pReader, pos, size);
+
+      if (delay < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.codecDelay = static_cast<unsigned long long>(delay);
     } else if (id == libwebm::kMkvSeekPreRoll) {
-      info.seekPreRoll = UnserializeUInt(pReader, pos, size);
+      const long long preroll = UnserializeUInt(pReader, pos, size);
+
+      if (preroll < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.seekPreRoll = static_cast<unsigned long long>(preroll);
     }
 
     pos += size;  // consume payload
-- 
2.43.0


From b201072d3f188a22f35bfbf8629aefbcbdf55039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 23/26] fix: report read failures in content compression and
 encryption

ParseCompressionEntry() and ParseEncryptionEntry() returned the (successful)
status of the element header when the payload could not be read.
---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index a664c9a..01099a2 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4356,7 +4356,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       // There should be only one settings element per content compression.
@@ -4417,7 +4417,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->key_id = buf;
@@ -4439,7 +4439,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->signature = buf;
@@ -4461,7 +4461,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->sig_key_id = buf;
-- 
2.43.0


From ec3e2ab8b375fdf1f4fd4ba5c25250f8c7063ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 24/26] fix: refuse unreadable content encoding and signature
 fields

The (negative) error code of UnserializeUInt() was stored as an unsigned value,
so a scope that cannot be read passed the "scope < 1" test.
---
 mkvparser/mkvparser.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 01099a2..3b2f03f 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4275,13 +4275,20 @@ long ContentEncoding::ParseContentEncodingEntry(long long start, long long size,
       return status;
 
     if (id == libwebm::kMkvContentEncodingOrder) {
-      encoding_order_ = UnserializeUInt(pReader, pos, size);
+      const long long order = UnserializeUInt(pReader, pos, size);
+      if (order < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_order_ = order;
     } else if (id == libwebm::kMkvContentEncodingScope) {
-      encoding_scope_ = UnserializeUInt(pReader, pos, size);
-      if (encoding_scope_ < 1)
+      const long long scope = UnserializeUInt(pReader, pos, size);
+      if (scope < 1)
         return -1;
+      encoding_scope_ = scope;
     } else if (id == libwebm::kMkvContentEncodingType) {
-      encoding_type_ = UnserializeUInt(pReader, pos, size);
+      const long long type = UnserializeUInt(pReader, pos, size);
+      if (type < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_type_ = type;
     } else if (id == libwebm::kMkvContentCompression) {
       ContentCompression* const compression =
           new (std::nothrow) ContentCompression();
@@ -4467,9 +4474,15 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->sig_key_id = buf;
       encryption->sig_key_id_len = buflen;
     } else if (id == libwebm::kMkvContentSigAlgo) {
-      encryption->sig_algo = UnserializeUInt(pReader, pos, size);
+      const long long algo = UnserializeUInt(pReader, pos, size);
+      if (algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_algo = algo;
     } else if (id == libwebm::kMkvContentSigHashAlgo) {
-      encryption->sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      const long long algo = UnserializeUInt(pReader, pos, size);
+      if (algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_hash_algo = algo;
     } else if (id == libwebm::kMkvContentEncAESSettings) {
       const long status = ParseContentEncAESSettingsEntry(
           pos, size, pReader, &encryption->aes_settings);
-- 
2.43.0


From 3c9e80e24480390d660667eb2e9331e5f2c6d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:37 +0000
Subject: [PATCH 25/26] fix: refuse a segment duration of exactly 2^63
 nanoseconds

It passed the rollover check and overflowed the cast in GetDuration().
---
 mkvparser/mkvparser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3b2f03f..73a1ea4 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4056,7 +4056,8 @@ long SegmentInfo::Parse() {
   }
 
   const double rollover_check = m_duration * m_timecodeScale;
-  if (rollover_check > static_cast<double>(LLONG_MAX))
+  // LLONG_MAX is rounded up to 2^63, which is already out of range.
+  if (rollover_check >= static_cast<double>(LLONG_MAX))
     return E_FILE_FORMAT_INVALID;
 
   if (pos != stop)
-- 
2.43.0


From 827fb3fea8f76e401a4d8fdd21b4d46337b41805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 26/26] fix: do not sign-extend chapter UIDs shorter than 8
 bytes

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 73a1ea4..4775986 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3546,7 +3546,10 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
       if (status < 0)  // error
         return status;
 
+      // The UID is unsigned: drop the sign extension of short values.
       m_uid = static_cast<unsigned long long>(val);
+      if (size < 8)
+        m_uid &= (1ULL << (8 * size)) - 1;
     } else if (id == libwebm::kMkvChapterTimeStart) {
       const long long val = UnserializeUInt(pReader, pos, size);
 
-- 
2.43.0

