From e9fc05f6f6846e1e62c72f101e63dce17bae90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 001/118] fix: RTP timestamps drift from presentation times
 because every frame's rounding error accumulates

---
 include/srtc/rtp_time_source.h | 3 +++
 src/rtp_time_source.cpp        | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..924d62f 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -25,6 +25,9 @@ private:
     std::optional<int64_t> mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
+
+    int64_t mBasePts;
+    uint32_t mBaseRtp;
 };
 
 } // namespace srtc
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..d080294 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -9,6 +9,8 @@ RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     , mClockRate(clockRate)
     , mCurrTime(std::chrono::steady_clock::now())
     , mCurrRtp(mRandom.next())
+    , mBasePts(0)
+    , mBaseRtp(mCurrRtp)
 {
 }
 
@@ -18,6 +20,8 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
 {
     if (!mCurrPts.has_value()) {
         mCurrPts = pts;
+        mBasePts = pts;
+        mBaseRtp = mCurrRtp;
     }
 
     const auto elapsed_usec = pts - mCurrPts.value();
@@ -26,7 +30,8 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // Relative to the first frame, so that rounding doesn't accumulate
+    mCurrRtp = mBaseRtp + static_cast<uint32_t>((pts - mBasePts) * mClockRate / 1000000);
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From 71d48e5c8f12f6b912a2ad05804ff353d646b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 002/118] fix: AV1 depacketizer appends new OBUs to the
 previous one when a packet starts with a continuation

---
 src/depacketizer_av1.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..116a25a 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -125,7 +125,8 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
+                    // The Z bit is only about the first OBU in the packet
+                    if (!valueZ || obuIndex > 0) {
                         // Start of a new OBU
                         bufferedObu.flushTo(w);
 
@@ -135,7 +136,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
-- 
2.43.0


From 9649b14778b1a23ad037fc08cd90a302f48594f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 003/118] fix: AV1 isFrameStart skips past the end of a payload
 with a bad OBU size

---
 src/depacketizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 116a25a..ecc514f 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -214,6 +214,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (reader.remaining() < obuSize) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From b6d01fdfcd736ccaefb47f4fa8537b1c4fb4b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 004/118] fix: AV1 packetizer counts the OBU extension byte in
 continuation fragments which don't have it

---
 src/packetizer_av1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..eddf2e7 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -165,7 +165,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto headerSize = isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2 : 1) : 0;
+            const auto writeSize = headerSize + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From 7dea19c15dafbc357969ffb86be57bc2d485b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 005/118] fix: NaluParser reads out of bounds in buffers
 shorter than a start code

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..7e5ca8f 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..b7519d1 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 8853af9f365559d3b28b1fdb1e9813e5e18db384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 006/118] fix: ObuParser reads past the end when the OBU size
 doesn't leave room for itself

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From 9c9aa5a60720765a9377097c876bcde21ac136a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 007/118] fix: undefined shift in Exp-Golomb codes with 32
 leading zeros

---
 src/bit_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..8f96961 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -37,7 +37,7 @@ uint32_t BitReader::readUnsignedExpGolomb()
 
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    return static_cast<uint32_t>((1ull << leadingZeros) - 1 + remainingBits);
 }
 
 } // namespace srtc
-- 
2.43.0


From 65cc8f6ca8cd63b4489e3a4b2afd35ec36a221c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 008/118] fix: null pointer when a fragmented H264 / H265 NALU
 continues without its start

---
 src/depacketizer_h264.cpp | 4 +++-
 src/depacketizer_h265.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..97a5495 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,12 +101,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..ed51cd6 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,12 +101,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 4771081820d1125b2d87f6ad7338e9f8d71abcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 009/118] fix: H265 isFrameStart doesn't advance past the units
 of an aggregation packet

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index ed51cd6..5fe8f4b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -138,6 +138,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From 47b6f8170cc259beb55a589e861cb1ee2fb42856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 010/118] fix: H264 depacketizer ignores units of one byte,
 losing frames which end with one

---
 src/depacketizer_h264.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 97a5495..fc44bd4 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -67,7 +67,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
 
-        if (reader.remaining() > 1) {
+        if (reader.remaining() >= 1) {
             const auto indicator = reader.readU8();
 
             // https://datatracker.ietf.org/doc/html/rfc6184#section-5.4
-- 
2.43.0


From 5219bccd8189d8d87ec7bcc54e8a41e0686793fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 011/118] fix: H264 / H265 frames sent as one aggregation
 packet are delivered as several frames

---
 include/srtc/depacketizer_h264.h |  2 ++
 include/srtc/depacketizer_h265.h |  2 ++
 src/depacketizer_h264.cpp        | 24 +++++++++++++++++++++---
 src/depacketizer_h265.cpp        | 24 +++++++++++++++++++++---
 4 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..0c07f3e 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -25,6 +25,8 @@ private:
     uint64_t mLastRtpTimestamp;
 
     void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool appendImpl(const JitterBufferItem* packet, const ByteBuffer& nalu);
+    void emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..81c394f 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -25,6 +25,8 @@ private:
     uint64_t mLastRtpTimestamp;
 
     void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool appendImpl(const JitterBufferItem* packet, const ByteBuffer& nalu);
+    void emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index fc44bd4..1c7fd50 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -76,17 +76,23 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
             if (type == h264::kPacket_STAP_A) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.7.1
+                auto isAppended = false;
                 while (reader.remaining() >= 2) {
                     const auto size = reader.readU16();
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        isAppended = appendImpl(packet, buf);
                         reader.skip(size);
                     } else {
                         break;
                     }
                 }
+
+                // All the units in the packet belong to the same frame
+                if (isAppended) {
+                    emitImpl(out, packet);
+                }
             } else if (type == h264::kPacket_FU_A) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.8
                 if (reader.remaining() >= 1) {
@@ -178,9 +184,16 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
 }
 
 void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+{
+    if (appendImpl(packet, nalu)) {
+        emitImpl(out, packet);
+    }
+}
+
+bool DepacketizerH264::appendImpl(const JitterBufferItem* packet, const ByteBuffer& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +211,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,6 +225,11 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
+    return true;
+}
+
+void DepacketizerH264::emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet)
+{
     if (packet->marker) {
         out.push_back(std::move(mFrameBuffer));
         mFrameBuffer.clear();
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 5fe8f4b..cc7e933 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -75,17 +75,23 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
             if (type == h265::kPacket_AP) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.2
+                auto isAppended = false;
                 while (reader.remaining() >= 2) {
                     const auto size = reader.readU16();
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        isAppended = appendImpl(packet, buf);
                         reader.skip(size);
                     } else {
                         break;
                     }
                 }
+
+                // All the units in the packet belong to the same frame
+                if (isAppended) {
+                    emitImpl(out, packet);
+                }
             } else if (type == h265::kPacket_FU) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.3
                 if (reader.remaining() >= 1) {
@@ -175,9 +181,16 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
 }
 
 void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+{
+    if (appendImpl(packet, nalu)) {
+        emitImpl(out, packet);
+    }
+}
+
+bool DepacketizerH265::appendImpl(const JitterBufferItem* packet, const ByteBuffer& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +211,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,6 +225,11 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
+    return true;
+}
+
+void DepacketizerH265::emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet)
+{
     if (packet->marker) {
         out.push_back(std::move(mFrameBuffer));
         mFrameBuffer.clear();
-- 
2.43.0


From 047d695ffb0ee44840e56323d344e6cd9d101a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 012/118] fix: jitter buffer computes a dequeue time far in the
 future for packets older than the first one

---
 src/jitter_buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..01f8bce 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,7 +169,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
+    // Can be negative if the first packets were reordered
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
     const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
-- 
2.43.0


From 24cc51a0aad56970ff7c84264a70db7e48492b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 013/118] fix: jitter buffer overwrites its oldest packet when
 a new one is exactly at capacity

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 01f8bce..ddba77b 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -222,7 +222,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From 34e2195ead56ac86a278330d1c1e637d060ab868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 014/118] fix: jitter buffer never recovers from a large
 sequence jump because rejected packets delay its reset

---
 src/jitter_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ddba77b..c9bf73e 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -130,7 +130,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -169,6 +168,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Only packets that weren't rejected, or we would never reset after a large jump in the sequence
+    mLastPacketTime = now;
+
     // Can be negative if the first packets were reordered
     const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
     const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
-- 
2.43.0


From d01a3ee407e79c8e1a90ff47044efca89c85eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 015/118] fix: jitter buffer asserts fail for AV1 frames, whose
 packet kinds were adjusted

---
 src/jitter_buffer.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index c9bf73e..4f30e41 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -467,14 +467,11 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
 #ifdef NDEBUG
 #else
                     assert(!mTempPacketList.empty());
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.front()->payload,
-                                                        mTempPacketList.front()->marker) == PacketKind::Start);
+                    assert(mTempPacketList.front()->kind == PacketKind::Start);
                     for (size_t i = 1; i < mTempPacketList.size() - 1; i += 1) {
-                        assert(mDepacketizer->getPacketKind(mTempPacketList[i]->payload, mTempPacketList[i]->marker) ==
-                               PacketKind::Middle);
+                        assert(mTempPacketList[i]->kind == PacketKind::Middle);
                     }
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.back()->payload,
-                                                        mTempPacketList.back()->marker) == PacketKind::End);
+                    assert(mTempPacketList.back()->kind == PacketKind::End);
 #endif
 
                     // Extract, possibly into multiple frames
-- 
2.43.0


From 5a26a3ef77026fd8b119cd53c044d5bb586c89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 016/118] fix: AV1 frames are dropped when the last OBU is in a
 packet of its own

---
 src/jitter_buffer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 4f30e41..d6d3088 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -291,16 +291,16 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
     // timestamp.
 
-    if (item->kind == PacketKind::Start) {
+    if (item->kind == PacketKind::Start || item->kind == PacketKind::Standalone) {
         if (mMinSeq < item->seq_ext) {
             const auto prev_seq = item->seq_ext - 1;
             const auto prev_index = prev_seq & mCapacityMask;
             const auto prev_item = mItemList[prev_index];
             assert(prev_item);
 
-            if (prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
+            if (prev_item->received && prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (prev_item->kind == PacketKind::Start || prev_item->kind == PacketKind::Middle) {
-                    item->kind = PacketKind::Middle;
+                    item->kind = item->kind == PacketKind::Start ? PacketKind::Middle : PacketKind::End;
                 }
             }
         }
@@ -313,9 +313,11 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             const auto next_item = mItemList[next_index];
             assert(next_item);
 
-            if (next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
+            if (next_item->received && next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (next_item->kind == PacketKind::Start) {
                     next_item->kind = PacketKind::Middle;
+                } else if (next_item->kind == PacketKind::Standalone) {
+                    next_item->kind = PacketKind::End;
                 }
             }
         }
-- 
2.43.0


From 51b39f4841f1886d5f23c687dd9a982f90b743ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 017/118] fix: jitter buffer drops the start of a frame which
 follows a frame without an end

---
 src/jitter_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index d6d3088..7703e5d 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -718,8 +718,9 @@ JitterBuffer::SequenceResult JitterBuffer::findMultiPacketSequence(uint64_t& out
             return SequenceResult::Complete;
         }
         if (item->kind != PacketKind::Middle) {
-            deleteItemList(mMinSeq, seq);
-            mMinSeq = seq + 1;
+            // This packet belongs to the next frame
+            deleteItemList(mMinSeq, seq - 1);
+            mMinSeq = seq;
             return SequenceResult::Abandoned;
         }
     }
-- 
2.43.0


From 74f42107cb02dc6e7023aa7e1cf4b6714f2b6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 018/118] fix: jitter buffer delivers frames again when their
 packets are duplicated after de-queuing

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..11da2ff 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,6 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mNextSeq;
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 7703e5d..31893e5 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,17 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Was this packet, or its place, already de-queued?
+    if (mNextSeq.has_value() && seq_ext < mNextSeq.value()) {
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: Will not enqueue packet SEQ = %" PRIu16
+            ", because it's already been de-queued",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
@@ -529,6 +540,8 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
         } else {
             break;
         }
+
+        mNextSeq = mMinSeq;
     }
 
     return result;
@@ -591,6 +604,7 @@ void JitterBuffer::freeEverything()
     }
 
     mLastFrameTimeStamp.reset();
+    mNextSeq.reset();
 }
 
 JitterBufferItem* JitterBuffer::newItem()
-- 
2.43.0


From 2c6b86eafa4a489f6646ce704571506661cbf83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 019/118] fix: H264 / H265 delimiters and SEI before the first
 slice of a frame are lost by the subscriber

---
 include/srtc/codec_h264.h | 1 +
 include/srtc/codec_h265.h | 3 +++
 src/depacketizer_h264.cpp | 4 ++++
 src/depacketizer_h265.cpp | 4 ++++
 4 files changed, 12 insertions(+)

diff --git a/include/srtc/codec_h264.h b/include/srtc/codec_h264.h
index cf6e883..a363a06 100644
--- a/include/srtc/codec_h264.h
+++ b/include/srtc/codec_h264.h
@@ -24,6 +24,7 @@ static constexpr uint8_t KeyFrame = 5;
 static constexpr uint8_t SEI = 6;
 static constexpr uint8_t SPS = 7;
 static constexpr uint8_t PPS = 8;
+static constexpr uint8_t AUD = 9;
 }; // namespace NaluType
 
 class NaluParser
diff --git a/include/srtc/codec_h265.h b/include/srtc/codec_h265.h
index 4c72931..88305b5 100644
--- a/include/srtc/codec_h265.h
+++ b/include/srtc/codec_h265.h
@@ -22,6 +22,9 @@ static constexpr uint8_t KeyFrame21 = 21; // CRA_NUT
 static constexpr uint8_t VPS = 32;
 static constexpr uint8_t SPS = 33;
 static constexpr uint8_t PPS = 34;
+static constexpr uint8_t AUD = 35;
+
+static constexpr uint8_t PrefixSEI = 39;
 }; // namespace NaluType
 
 //////////
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 1c7fd50..07c3906 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == srtc::h264::NaluType::SEI || naluType == srtc::h264::NaluType::AUD) {
+        // These can only be before the first slice
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index cc7e933..23a8203 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == srtc::h265::NaluType::PrefixSEI || naluType == srtc::h265::NaluType::AUD) {
+        // These can only be before the first slice
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
-- 
2.43.0


From 878a11349ca4fdaae8a7c9840bbe5b288e81954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 020/118] fix: H265 aggregation packets have a temporal id
 which is not valid

---
 src/packetizer_h265.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_h265.cpp b/src/packetizer_h265.cpp
index 154daab..02804b3 100644
--- a/src/packetizer_h265.cpp
+++ b/src/packetizer_h265.cpp
@@ -106,8 +106,9 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
                 ByteWriter writer(payload);
 
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-1.1.4
+                // The temporal id is plus one, zero is not allowed
                 writer.writeU8(kPacket_AP << 1);
-                writer.writeU8(0);
+                writer.writeU8(1);
 
                 // VPS
                 writer.writeU16(static_cast<uint16_t>(mVPS.size()));
-- 
2.43.0


From e3d89971eba8ea6128eb199b595a4d25ccc6b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 021/118] fix: VP8 delta frames are marked as not used for
 reference, allowing them to be discarded

---
 src/packetizer_vp8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_vp8.cpp b/src/packetizer_vp8.cpp
index 1bf4983..b300cb6 100644
--- a/src/packetizer_vp8.cpp
+++ b/src/packetizer_vp8.cpp
@@ -77,7 +77,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerVP8::generate(
         ByteWriter writer(payload);
 
         // |X|R|N|S|R| PID |
-        writer.writeU8(static_cast<uint8_t>((tagFrameType << 5) | ((packetNumber == 0 ? 1 : 0) << 4)));
+        // We don't know which frames are not used for reference, so N is always 0
+        writer.writeU8(static_cast<uint8_t>((packetNumber == 0 ? 1 : 0) << 4));
 
         // Payload
         const auto writeNow = std::min(currSize, packetSize);
-- 
2.43.0


From 71f9657957e8ba6dc848b082c856d32f26c26fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 022/118] fix: VP9 payload descriptors with inter-layer
 dependency leave TL0PICIDX in the frame

---
 src/codec_vp9.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index 23a894a..bdb4f45 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -51,16 +51,14 @@ bool parsePayloadDescriptor(const uint8_t* data,
         }
     }
 
-    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0 and D=0)
+    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0)
     if (flagL) {
         if (pos >= size) {
             return false;
         }
-        const uint8_t l_byte = data[pos];
         pos++;
 
-        const bool d_bit = (l_byte & 0x01) != 0;
-        if (!flagF && !d_bit) {
+        if (!flagF) {
             if (pos >= size) {
                 return false;
             }
-- 
2.43.0


From 9f203de060a9969ac8eac727729c4e6ef963198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 023/118] fix: AV1 frames which start with a packet of metadata
 only lose it

---
 include/srtc/codec_av1.h | 1 +
 src/depacketizer_av1.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/srtc/codec_av1.h b/include/srtc/codec_av1.h
index 985a5d7..6749f44 100644
--- a/include/srtc/codec_av1.h
+++ b/include/srtc/codec_av1.h
@@ -16,6 +16,7 @@ namespace ObuType
 static constexpr uint8_t SequenceHeader = 1;
 static constexpr uint8_t TemporalDelimiter = 2;
 static constexpr uint8_t FrameHeader = 3;
+static constexpr uint8_t Metadata = 5;
 static constexpr uint8_t Frame = 6;
 static constexpr uint8_t RedundantFrame = 7;
 }; // namespace ObuType
diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index ecc514f..531f8d6 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -198,7 +198,7 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
                 const auto obuHeader = reader.readU8();
                 const auto obuType = static_cast<uint8_t>((obuHeader >> 3) & 0x0Fu);
 
-                if (obuType == av1::ObuType::SequenceHeader) {
+                if (obuType == av1::ObuType::SequenceHeader || obuType == av1::ObuType::Metadata) {
                     return true;
                 }
                 if (av1::isFrameObuType(obuType)) {
-- 
2.43.0


From 53653441596a0b37375df03e5e74d9c9367646a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 024/118] fix: RTP extension values longer than 255 bytes
 corrupt the extension

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..d7afa4c 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
-- 
2.43.0


From 00f242a58dfb7387560b058deb3b8f8cdcca264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 025/118] fix: RTP extension elements which follow padding are
 ignored

---
 src/rtp_extension.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..ac3c585 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,14 +152,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        uint8_t value = 0;
+        while (value == 0) {
+            // Skipping padding, which can be between elements
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
@@ -181,14 +180,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
-    }
-
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        // Skipping padding, which can be between elements
+        if (reader.remaining() < 2) {
+            return false;
+        }
+        id = reader.readU8();
     }
 
     const auto len = reader.readU8();
-- 
2.43.0


From 68c14759a1f0e15360e2d2ea078acc4cd2e269c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 026/118] fix: RTP packets with contributing sources are not
 decrypted or parsed correctly

---
 src/rtp_packet.cpp  |  7 +++++++
 src/srtp_crypto.cpp | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..2013c1a 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -293,6 +293,13 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Contributing sources
+    const auto csrcSize = ((header >> 8) & 0x0Fu) * 4u;
+    if (reader.remaining() < csrcSize) {
+        return {};
+    }
+    reader.skip(csrcSize);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..8f2db76 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -188,9 +188,16 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = 4u + 4 + 4 + 4 * static_cast<size_t>(packetData[0] & 0x0F); // including CSRC
+    if (headerSize > packetSize) {
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
+        if (packetSize < headerSize + 4) {
+            return false;
+        }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -294,9 +301,16 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = 4u + 4 + 4 + 4 * static_cast<size_t>(packetData[0] & 0x0F); // including CSRC
+    if (headerSize > packetSize) {
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
+        if (packetSize < headerSize + 4) {
+            return false;
+        }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -415,13 +429,16 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = 4u + 4 + 4 + 4 * static_cast<size_t>(encryptedData[0] & 0x0F); // including CSRC
+    if (headerSize + digestSize > encryptedSize) {
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -537,13 +554,16 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    auto headerSize = 4u + 4 + 4 + 4 * static_cast<size_t>(encryptedData[0] & 0x0F); // including CSRC
+    if (headerSize + digestSize > encryptedSize) {
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-- 
2.43.0


From 216aec42007e20bf40afda3848c177135efc5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 027/118] fix: AV1 packets which start with a new OBU after a
 full packet have no header extension

---
 src/packetizer_av1.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index eddf2e7..dc64565 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -150,6 +150,12 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
 
                     payload.clear();
                     packetNumber += 1;
+
+                    // The new packet has its own extension and padding
+                    extension = buildExtension(track, extensionSourceList, isNewCodedVideoSequence, packetNumber);
+                    padding = getPadding(track, extensionSourceList, basicPacketSize);
+                    usablePayloadSize = adjustPacketSize(basicPacketSize, padding, extension);
+                    writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize);
                 }
             }
 
-- 
2.43.0


From 587f6447af4939d9238ae9a631da0cca8fff920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 028/118] fix: AV1 packets can exceed the maximum packet size
 by one byte when OBUs have layer ids

---
 src/packetizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index dc64565..29010fd 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -97,8 +97,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
     ByteBuffer payload;
     ByteWriter writer(payload);
 
-    // The "-4" is for the OBU headers and the LEB128 size
-    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 4;
+    // The "-5" is for the aggregation header, the OBU headers and the LEB128 size
+    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 5;
 
     RtpExtension extension;
     size_t usablePayloadSize = 0;
-- 
2.43.0


From 8822e5ce9d2a4e2626fd81c4c85489dbf24d0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 029/118] fix: H264 / H265 parts of frames are delivered before
 the first key frame

---
 src/depacketizer_h264.cpp | 5 ++++-
 src/depacketizer_h265.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 07c3906..4a74e63 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -235,7 +235,10 @@ bool DepacketizerH264::appendImpl(const JitterBufferItem* packet, const ByteBuff
 void DepacketizerH264::emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet)
 {
     if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
+        // Other units can be appended before there is a key frame
+        if ((mHaveBits & kHaveAll) == kHaveAll) {
+            out.push_back(std::move(mFrameBuffer));
+        }
         mFrameBuffer.clear();
     }
 }
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 23a8203..752264f 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -235,7 +235,10 @@ bool DepacketizerH265::appendImpl(const JitterBufferItem* packet, const ByteBuff
 void DepacketizerH265::emitImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet)
 {
     if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
+        // Other units can be appended before there is a key frame
+        if ((mHaveBits & kHaveAll) == kHaveAll) {
+            out.push_back(std::move(mFrameBuffer));
+        }
         mFrameBuffer.clear();
     }
 }
-- 
2.43.0


From d7e44571f99d4922a937678d91e5eaffd348b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 030/118] fix: AV1 packets which start with a tile group are
 taken for the start of a frame

---
 include/srtc/codec_av1.h | 1 +
 src/depacketizer_av1.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/srtc/codec_av1.h b/include/srtc/codec_av1.h
index 6749f44..f760c06 100644
--- a/include/srtc/codec_av1.h
+++ b/include/srtc/codec_av1.h
@@ -16,6 +16,7 @@ namespace ObuType
 static constexpr uint8_t SequenceHeader = 1;
 static constexpr uint8_t TemporalDelimiter = 2;
 static constexpr uint8_t FrameHeader = 3;
+static constexpr uint8_t TileGroup = 4;
 static constexpr uint8_t Metadata = 5;
 static constexpr uint8_t Frame = 6;
 static constexpr uint8_t RedundantFrame = 7;
diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 531f8d6..72ad02d 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -204,6 +204,10 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
                 if (av1::isFrameObuType(obuType)) {
                     return true;
                 }
+                if (obuType == av1::ObuType::TileGroup) {
+                    // The frame header was in an earlier packet
+                    return false;
+                }
 
                 obuSize -= 1;
             }
-- 
2.43.0


From 708fea5b614e85b913c1534fa832988c84692a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 031/118] fix: jitter buffer gives up too early on packets lost
 between reordered first packets

---
 src/jitter_buffer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 31893e5..f929d3d 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -206,8 +206,13 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             return;
         }
 
+        // The lost packets are older than the current min, but can be newer than this packet
+        const auto min_item = mItemList[mMinSeq & mCapacityMask];
+        assert(min_item);
+        const auto when_min_abandon = min_item->received ? min_item->when_dequeue : min_item->when_nack_abandon;
+
         for (auto seq_lost = mMinSeq - 1; seq_lost > seq_ext; seq_lost -= 1) {
-            const auto item_lost = newLostItem(when_nack_request, when_nack_abandon, seq_lost);
+            const auto item_lost = newLostItem(when_nack_request, when_min_abandon, seq_lost);
 
             const auto index = item_lost->seq_ext & mCapacityMask;
             assert(mItemList[index] == nullptr);
-- 
2.43.0


From ef1d39fc9cb5472dade51c861d492c19c2ae5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 032/118] fix: jitter buffer delays requests for missing
 packets behind packets which arrived late

---
 src/jitter_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index f929d3d..9dc6b83 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -588,8 +588,6 @@ std::vector<uint16_t> JitterBuffer::processNack()
                     static_cast<uint16_t>(mMaxSeq));
 #endif
             }
-        } else if (diff_millis(item->when_nack_abandon, now) <= 0) {
-            break;
         }
     }
 
-- 
2.43.0


From 0244a5f0c65c9b3b9e1d25df4fbc004fba43849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 033/118] fix: one-byte RTP extension elements with id 0 and a
 length don't end the extension

---
 src/rtp_extension.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index ac3c585..c6d7c0c 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -162,8 +162,8 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
-        if (id == 0x0Fu) {
-            // Reserved
+        if (id == 0 || id == 0x0Fu) {
+            // Padding with a length, or reserved: these end the extension
             return false;
         }
 
-- 
2.43.0


From 37c717768ffd1f77a05ce3fb8c71511c459eddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 034/118] fix: RtpExtensionBuilder::contains misses an empty
 last element

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index d7afa4c..1e1be89 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -101,7 +101,7 @@ RtpExtensionBuilder RtpExtensionBuilder::from(const RtpExtension& extension)
 bool RtpExtensionBuilder::contains(uint8_t id) const
 {
     ByteReader reader(mBuf);
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         if (extensionId == id) {
             return true;
-- 
2.43.0


From 78757429406d816468c5f2558804fb7ae7d3d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 035/118] fix: RTCP packets without an SSRC make the parser
 read out of bounds

---
 src/rtcp_packet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..89dc524 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -84,6 +84,12 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 			break;
 		}
 
+		if (len < 8) {
+			// No SSRC, such as in a BYE for zero sources
+			ptr += len;
+			continue;
+		}
+
 		// Payload
 		ByteBuffer payload(ptr + 8, len - 8);
 
-- 
2.43.0


From 757f75821fa93326cdf9ac303a2ee233a9ab49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 036/118] fix: replay protection rejects late packets from
 before the sequence wraps around

---
 src/replay_protection.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..d7a2a23 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -14,6 +14,12 @@ uint32_t getRolloverForwadDistance(uint32_t maxPossibleValue, uint32_t curMaxVal
     return maxPossibleValue - curMaxValue + 1 + value;
 }
 
+uint32_t getRolloverBackwardDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
+{
+    assert(curMaxValue < value);
+    return maxPossibleValue - value + 1 + curMaxValue;
+}
+
 bool isSet(const uint8_t* storage, uint32_t storageSize, uint32_t value)
 {
     const auto index = (value / 8) % storageSize;
@@ -72,7 +78,9 @@ bool ReplayProtection::canProceed(uint32_t value)
     } else if (value > mCurMax) {
         const auto distance = value - mCurMax;
         if (distance > mMaxDistanceForward) {
-            return false;
+            // Can be an older value from before the rollover
+            return getRolloverBackwardDistance(mMaxPossibleValue, mCurMax, value) < mSize &&
+                   !isSet(mStorage, mStorageSize, value);
         }
         return true;
     } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
@@ -104,6 +112,11 @@ bool ReplayProtection::set(uint32_t value)
     } else if (value > mCurMax) {
         const auto distance = value - mCurMax;
         if (distance > mMaxDistanceForward) {
+            if (getRolloverBackwardDistance(mMaxPossibleValue, mCurMax, value) < mSize) {
+                // An older value from before the rollover
+                setImpl(mStorage, mStorageSize, value);
+                return true;
+            }
             return false;
         }
 
-- 
2.43.0


From 83feafaf8615f3192398b4f1582d6b4ce31e3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 037/118] fix: forged SRTP and SRTCP packets change the
 rollover count and the channels of the receiver

---
 include/srtc/srtp_connection.h |  3 ++-
 src/srtp_connection.cpp        | 45 ++++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..3d03d1b 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -70,12 +70,13 @@ private:
 	struct ChannelValue {
 		std::unique_ptr<ReplayProtection> replayProtection;
 		uint32_t rolloverCount;
-		std::optional<uint16_t> lastSequence16;
+		uint16_t lastSequence16;
 	};
 
 	using ChannelMap = std::unordered_map<ChannelKey, ChannelValue, hash_channel_key, equal_to_channel_key>;
 
 	ChannelMap mSrtpInMap;
+	ChannelMap mSrtcpInMap;
 	ChannelMap mSrtpOutMap;
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..be0e469 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -116,6 +116,7 @@ void SrtpConnection::onPeerConnected()
     // We may have missed some packets while not connected, so need to reset replay protection.
     // Technically we only need this for the incoming map, but let's clear both for consistency.
     mSrtpInMap.clear();
+    mSrtcpInMap.clear();
     mSrtpOutMap.clear();
 }
 
@@ -162,7 +163,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    const auto channelIter = mSrtcpInMap.find(key);
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +171,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtcpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,6 +189,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
+    // The packet is authentic, only now we can save state
+    auto& channelValue = ensureSrtpChannel(mSrtcpInMap, key, std::numeric_limits<uint32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -206,7 +209,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    const auto channelIter = mSrtpInMap.find(key);
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -214,7 +217,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -223,19 +226,25 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // Because of jitter, we may cross the rollover back and forth, only count once
-    auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
-            rolloverCount -= 1;
-        }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
+    uint32_t rolloverCount = 0;
+    uint32_t newRolloverCount = 0;
+    auto newLastSequence16 = sequenceNumber;
+
+    if (channelIter != mSrtpInMap.end()) {
+        const auto& channelValue = channelIter->second;
+
+        rolloverCount = channelValue.rolloverCount;
+        newRolloverCount = channelValue.rolloverCount;
+
+        if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
+            if (rolloverCount > 0) {
+                rolloverCount -= 1;
+            }
+            newLastSequence16 = channelValue.lastSequence16;
+        } else if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
             rolloverCount += 1;
+            newRolloverCount += 1;
         }
-        channelValue.lastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +261,10 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // The packet is authentic, only now we can save state
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    channelValue.rolloverCount = newRolloverCount;
+    channelValue.lastSequence16 = newLastSequence16;
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -272,7 +285,7 @@ SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
     }
 
     auto replayProtection = std::make_unique<ReplayProtection>(maxPossibleValueForReplayProtection, 2048);
-    const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, {} } });
+    const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, 0 } });
     return result.first->second;
 }
 
-- 
2.43.0


From 26b924d3dc75ad8ec5cf5650bf2b6f330190fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 038/118] fix: media is rejected forever after 512 lost
 packets, and replay protection and rollover are lost on reconnect

---
 include/srtc/replay_protection.h |  4 ++++
 include/srtc/srtp_connection.h   |  3 +++
 src/replay_protection.cpp        | 24 +++++++++++++++++++
 src/srtp_connection.cpp          | 40 ++++++++++++++++++++++++--------
 4 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..5988f2c 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -14,6 +14,10 @@ public:
     [[nodiscard]] bool canProceed(uint32_t value);
     bool set(uint32_t value);
 
+    // Values which are ahead of the max by more than what canProceed allows, for use after they have been authenticated
+    [[nodiscard]] bool canJump(uint32_t value) const;
+    void jump(uint32_t value);
+
 private:
     const uint32_t mMaxPossibleValue;
     const uint32_t mSize;
diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 3d03d1b..cd50c63 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -83,6 +83,9 @@ private:
 									const ChannelKey& key,
 									uint32_t maxPossibleValueForReplayProtection);
 
+	static bool canProceedOrJump(const ChannelValue& channelValue, uint32_t sequenceNumber);
+	static void setOrJump(ChannelValue& channelValue, uint32_t sequenceNumber);
+
 	bool getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const;
 	bool getMediaSequenceNumber(const ByteBuffer& packet, uint16_t& outSequenceNumber) const;
 };
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index d7a2a23..2ab10a5 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -136,6 +136,30 @@ bool ReplayProtection::set(uint32_t value)
     }
 }
 
+bool ReplayProtection::canJump(uint32_t value) const
+{
+    if (!mStorage) {
+        return false;
+    }
+
+    const auto distance = (value - mCurMax) & mMaxPossibleValue;
+    return distance > mMaxDistanceForward && distance <= mMaxPossibleValue / 2;
+}
+
+void ReplayProtection::jump(uint32_t value)
+{
+    assert(canJump(value));
+
+    const auto distance = (value - mCurMax) & mMaxPossibleValue;
+    if (distance < mSize) {
+        setForward(value);
+    } else {
+        std::memset(mStorage, 0, mStorageSize);
+        setImpl(mStorage, mStorageSize, value);
+        mCurMax = value;
+    }
+}
+
 void ReplayProtection::setForward(uint32_t value)
 {
     mCurMax = (mCurMax + 1) & mMaxPossibleValue;
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index be0e469..a5d39ac 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -113,10 +113,8 @@ SrtpConnection::~SrtpConnection() = default;
 
 void SrtpConnection::onPeerConnected()
 {
-    // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
-    mSrtpInMap.clear();
-    mSrtcpInMap.clear();
+    // We may have missed some packets while not connected, but the replay protection can jump forward, and we need to
+    // keep the rollover counters. Clear the outgoing map only.
     mSrtpOutMap.clear();
 }
 
@@ -171,7 +169,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (channelIter != mSrtcpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtcpInMap.end() && !canProceedOrJump(channelIter->second, sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -191,7 +189,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     // The packet is authentic, only now we can save state
     auto& channelValue = ensureSrtpChannel(mSrtcpInMap, key, std::numeric_limits<uint32_t>::max());
-    channelValue.replayProtection->set(sequenceNumber);
+    setOrJump(channelValue, sequenceNumber);
     return true;
 }
 
@@ -217,7 +215,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
+    if (channelIter != mSrtpInMap.end() && !canProceedOrJump(channelIter->second, sequenceNumber)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -226,6 +224,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // Because of jitter, we may cross the rollover back and forth, only count once
+    // https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
     uint32_t rolloverCount = 0;
     uint32_t newRolloverCount = 0;
     auto newLastSequence16 = sequenceNumber;
@@ -236,14 +235,18 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         rolloverCount = channelValue.rolloverCount;
         newRolloverCount = channelValue.rolloverCount;
 
-        if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
+        const auto distance = static_cast<int>(sequenceNumber) - static_cast<int>(channelValue.lastSequence16);
+
+        if (distance > 0x8000) {
             if (rolloverCount > 0) {
                 rolloverCount -= 1;
             }
             newLastSequence16 = channelValue.lastSequence16;
-        } else if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
+        } else if (distance < -0x8000) {
             rolloverCount += 1;
             newRolloverCount += 1;
+        } else if (distance < 0) {
+            newLastSequence16 = channelValue.lastSequence16;
         }
     }
 
@@ -265,7 +268,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
     channelValue.rolloverCount = newRolloverCount;
     channelValue.lastSequence16 = newLastSequence16;
-    channelValue.replayProtection->set(sequenceNumber);
+    setOrJump(channelValue, sequenceNumber);
     return true;
 }
 
@@ -289,6 +292,23 @@ SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
     return result.first->second;
 }
 
+bool SrtpConnection::canProceedOrJump(const ChannelValue& channelValue, uint32_t sequenceNumber)
+{
+    const auto& replayProtection = channelValue.replayProtection;
+    return replayProtection->canProceed(sequenceNumber) || replayProtection->canJump(sequenceNumber);
+}
+
+void SrtpConnection::setOrJump(ChannelValue& channelValue, uint32_t sequenceNumber)
+{
+    // A lot of packets may have been lost
+    const auto& replayProtection = channelValue.replayProtection;
+    if (replayProtection->canJump(sequenceNumber)) {
+        replayProtection->jump(sequenceNumber);
+    } else {
+        replayProtection->set(sequenceNumber);
+    }
+}
+
 bool SrtpConnection::getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const
 {
     size_t offetFromEnd;
-- 
2.43.0


From 23ec725457d44decc8d1c58a37ccd900c8fb5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 039/118] fix: congestion feedback accumulates rounding errors
 of arrival times

---
 src/twcc_subscribe.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..8310bfa 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -34,6 +34,16 @@ constexpr auto kMaxSmallDeltaMicros = 250 * std::numeric_limits<uint8_t>::max();
 constexpr auto kMinLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::min();
 constexpr auto kMaxLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::max();
 
+// The delta in units of 250 micros as it will be read by the other side, rounded down
+int32_t getRoundedDelta(int64_t delta_micros)
+{
+    auto units = delta_micros / 250;
+    if (units * 250 > delta_micros) {
+        units -= 1;
+    }
+    return static_cast<int32_t>(units * 250);
+}
+
 class Builder
 {
 public:
@@ -550,8 +560,8 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxSmallDeltaMicros) {
             // Acceptable small delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            delta_micros[out] = getRoundedDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
@@ -583,8 +593,8 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxLargeDeltaMicros) {
             // Acceptable large delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            delta_micros[out] = getRoundedDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
-- 
2.43.0


From 7b9e5efbc5f8e9237dddea242ad9148efdc70522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 040/118] fix: generating congestion feedback loops forever
 when arrival times are far apart

---
 src/twcc_subscribe.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 8310bfa..4b1c9d4 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -62,6 +62,8 @@ public:
                           const bool* received,
                           const int32_t* delta_micros);
 
+    void addSingleLargeDelta(srtc::twcc::SubscribePacket* packet, int32_t delta_micros);
+
     [[nodiscard]] bool empty() const;
     [[nodiscard]] size_t size() const;
 
@@ -177,6 +179,22 @@ void Builder::addLargeDeltaRun(srtc::twcc::SubscribePacket* first_packet,
     mPacketStatusCount += count;
 }
 
+void Builder::addSingleLargeDelta(srtc::twcc::SubscribePacket* packet, int32_t delta_micros)
+{
+    // https://datatracker.ietf.org/doc/html/draft-holmer-rmcat-transport-wide-cc-extensions-01#section-3.1.3
+    initBaseSeq(packet);
+
+    const auto header = static_cast<uint16_t>((srtc::twcc::kCHUNK_RUN_LENGTH << 15) |
+                                              (srtc::twcc::kSTATUS_RECEIVED_LARGE_DELTA << 13) | 1);
+    mWriterHeaders.writeU16(header);
+
+    assert(delta_micros >= kMinLargeDeltaMicros);
+    assert(delta_micros <= kMaxLargeDeltaMicros);
+    mWriterTimestamps.writeU16(static_cast<uint16_t>(static_cast<int16_t>(delta_micros / 250)));
+
+    mPacketStatusCount += 1;
+}
+
 bool Builder::empty() const
 {
     return mBufHeaders.empty() && mBufTimestmaps.empty();
@@ -448,6 +466,12 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
                 curr_time = 0;
+            } else {
+                // There is nothing to flush, it's one of the following packets which has too large a delta
+                const auto delta = getRoundedDelta(packet->received_time_micros - curr_time);
+                builder->addSingleLargeDelta(packet, delta);
+                advance(1);
+                curr_time += delta;
             }
         }
 
-- 
2.43.0


From c8b2b864a4416f972aa1cc00d78100d3a6f4ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 041/118] fix: packets which arrive when the feedback history
 is created are reported as not received

---
 include/srtc/twcc_subscribe.h |  2 +-
 src/twcc_subscribe.cpp        | 23 +++++++++++++----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..a282fe7 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -15,7 +15,7 @@ namespace srtc::twcc
 
 struct SubscribePacket {
     uint64_t seq_ext;
-    int64_t received_time_micros; // or 0
+    int64_t received_time_micros; // or -1
 };
 
 // A history of such packets
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 4b1c9d4..2f73071 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -18,6 +18,9 @@ constexpr auto kMaxPacketMask = kMaxPacketCount - 1;
 
 static_assert((kMaxPacketCount & kMaxPacketMask) == 0); // Power of 2
 
+// Used instead of the time, which is relative to when the history was created and can be 0
+constexpr int64_t kNotReceived = -1;
+
 constexpr auto kGenerateIntervalMicros = 100 * 1000;
 constexpr auto kMaxPacketSize = 1000;
 
@@ -326,7 +329,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMaxSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceived;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -370,7 +373,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMinSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceived;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -419,7 +422,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     std::list<ByteBuffer> list;
 
     uint16_t count = 0;
-    int64_t curr_time = 0;
+    int64_t curr_time = -1; // not known yet
     auto builder = std::make_unique<Builder>();
 
     bool received[14] = {};
@@ -432,7 +435,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
         index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
         packet = mPacketList[index];
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // A run of not received
             count = peekNotReceivedRun();
             assert(count >= 1 && count <= 8191);
@@ -440,7 +443,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             builder->addNotReceivedRun(packet, count);
             advance(count);
         } else {
-            if (curr_time == 0) {
+            if (curr_time < 0) {
                 curr_time = (packet->received_time_micros / kReferenceTimeUnits) * kReferenceTimeUnits;
                 builder->setReferenceTime(curr_time);
             }
@@ -465,7 +468,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
-                curr_time = 0;
+                curr_time = -1;
             } else {
                 // There is nothing to flush, it's one of the following packets which has too large a delta
                 const auto delta = getRoundedDelta(packet->received_time_micros - curr_time);
@@ -479,7 +482,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             // Packet size has gotten too large, flush
             list.push_back(builder->generate(mFbCount++));
             builder = std::make_unique<Builder>();
-            curr_time = 0;
+            curr_time = -1;
         }
     }
 
@@ -553,7 +556,7 @@ uint16_t SubscribePacketHistory::peekNotReceivedRun() const
 
         assert(packet);
 
-        if (packet->received_time_micros != 0) {
+        if (packet->received_time_micros != kNotReceived) {
             break;
         }
 
@@ -576,7 +579,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
@@ -609,7 +612,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
-- 
2.43.0


From e90c4179b7a89a78821d5348e883031f22e08e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 042/118] fix: arrival times are wrong after a packet which is
 not in the history in congestion feedback

---
 src/rtp_extension_source_twcc.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index e2210b3..9445cbd 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -295,24 +295,20 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     }
 
     // Resolve time deltas to absolute times
-    twcc::PublishPacket* prev_ptr = nullptr;
+    // Packets which we no longer keep, or never sent, still advance the time
+    auto curr_time_micros = reference_time_micros;
 
     for (uint16_t i = 0; i < packet_status_count; i += 1) {
         const auto curr_seq = static_cast<uint16_t>(base_seq_number + i);
         const auto curr_ptr = mPacketHistory->get(curr_seq);
 
         if (isReceivedWithTime(tempList[i].status)) {
-            if (curr_ptr) { // Needed only for MSVC compiler
-                if (!prev_ptr) {
-                    curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
-                } else {
-                    curr_ptr->received_time_micros = prev_ptr->received_time_micros + tempList[i].delta_micros;
-                }
+            curr_time_micros += tempList[i].delta_micros;
 
+            if (curr_ptr) {
+                curr_ptr->received_time_micros = curr_time_micros;
                 curr_ptr->received_time_present = true;
             }
-
-            prev_ptr = curr_ptr;
         }
     }
 
-- 
2.43.0


From fe9218d40acc39ae336d50069a3f57e006fe9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 043/118] fix: packets which were reordered on the way count as
 lost in the congestion statistics

---
 src/rtp_extension_source_twcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 9445cbd..6cb447d 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -274,6 +274,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             tempList[i].delta_micros = 250 * delta;
             if (ptr) {
                 ptr->reported_status = twcc::kSTATUS_RECEIVED_SMALL_DELTA;
+                ptr->reported_as_not_received = false;
             }
         } else if (symbol == twcc::kSTATUS_RECEIVED_LARGE_DELTA) {
             if (reader.remaining() < 2) {
@@ -285,6 +286,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             tempList[i].delta_micros = 250 * delta;
             if (ptr) {
                 ptr->reported_status = twcc::kSTATUS_RECEIVED_LARGE_DELTA;
+                ptr->reported_as_not_received = false;
             }
         }
     }
-- 
2.43.0


From f06b190e29e1773bfd2664ea4e3d6f8eaffa3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 044/118] fix: lost packets are used as the ends of the
 bandwidth probe

---
 src/twcc_publish.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/twcc_publish.cpp b/src/twcc_publish.cpp
index 9cbdce6..333f888 100644
--- a/src/twcc_publish.cpp
+++ b/src/twcc_publish.cpp
@@ -380,7 +380,10 @@ bool PublishPacketHistory::calcualteBandwidthProbe([[maybe_unused]] int64_t now,
         const auto index = seq & kMaxPacketMask;
         const auto ptr = mPacketList + index;
 
-        if (ptr->padding_size > 0) {
+        // Lost packets, and those not yet reported, don't have the time
+        const auto isProbe = ptr->padding_size > 0 && ptr->received_time_present;
+
+        if (isProbe) {
             if (endPtr == nullptr) {
                 endPtr = ptr;
             }
@@ -395,7 +398,7 @@ bool PublishPacketHistory::calcualteBandwidthProbe([[maybe_unused]] int64_t now,
             }
         }
 
-        if (endPtr != nullptr && ptr->padding_size > 0) {
+        if (endPtr != nullptr && isProbe) {
             if (paddingPresentCount >= kProbeMinPacketCount && paddingPresentCount >= totalCount * 8 / 10) {
                 if (endPtr->received_time_micros - ptr->received_time_micros >= kProbeMinDurationMicros) {
                     startPtr = ptr;
@@ -430,7 +433,9 @@ bool PublishPacketHistory::calcualteBandwidthProbe([[maybe_unused]] int64_t now,
         if (ptr->padding_size > 0) {
             spanPaddingCount += 1;
         }
-        spanDataSize += ptr->payload_size + ptr->padding_size;
+        if (ptr->received_time_present) {
+            spanDataSize += ptr->payload_size + ptr->padding_size;
+        }
 
         if (seq == startPtr->seq) {
             break;
-- 
2.43.0


From 563790dc01d7273241fdaaac74288a8ca1a98e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 045/118] fix: congestion feedback about packets which were not
 sent confuses the history, negative times too

---
 include/srtc/twcc_publish.h | 4 ++--
 src/twcc_publish.cpp        | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/srtc/twcc_publish.h b/include/srtc/twcc_publish.h
index 0f40175..63e0f4e 100644
--- a/include/srtc/twcc_publish.h
+++ b/include/srtc/twcc_publish.h
@@ -118,10 +118,10 @@ private:
     LastPacketInfo mLastMaxForBandwidthTrend;
 
     struct ActualItem {
-        uint64_t received_time_micros;
+        int64_t received_time_micros;
         uint16_t payload_size;
 
-        ActualItem(uint64_t received_time_micros, uint16_t payload_size)
+        ActualItem(int64_t received_time_micros, uint16_t payload_size)
             : received_time_micros(received_time_micros)
             , payload_size(payload_size)
         {
diff --git a/src/twcc_publish.cpp b/src/twcc_publish.cpp
index 333f888..ec1a860 100644
--- a/src/twcc_publish.cpp
+++ b/src/twcc_publish.cpp
@@ -122,6 +122,7 @@ void PublishPacketHistory::saveOutgoingPacket(uint16_t seq,
             mMaxSeq += 1;
             curr = mPacketList + (mMaxSeq & kMaxPacketMask);
             std::memset(curr, 0, sizeof(PublishPacket));
+            curr->seq = mMaxSeq;
             if (mMaxSeq == seq) {
                 break;
             }
-- 
2.43.0


From 89fd8b079b8d5fc4eaeb7f60eb5c11e36d38b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 046/118] fix: arrival times jump back when the reference time
 of congestion feedback wraps

---
 include/srtc/rtp_extension_source_twcc.h |  1 +
 src/rtp_extension_source_twcc.cpp        | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/srtc/rtp_extension_source_twcc.h b/include/srtc/rtp_extension_source_twcc.h
index 5052e4d..e5c6ed0 100644
--- a/include/srtc/rtp_extension_source_twcc.h
+++ b/include/srtc/rtp_extension_source_twcc.h
@@ -65,6 +65,7 @@ public:
 
 private:
     uint16_t mNextPacketSEQ;
+    int64_t mReferenceTime; // of the last feedback, units of 64 milliseconds
     std::unique_ptr<twcc::PublishPacketHistory> mPacketHistory;
 
     struct TempPacket {
diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 6cb447d..4c33cd5 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -37,6 +37,7 @@ namespace srtc
 
 RtpExtensionSourceTWCC::RtpExtensionSourceTWCC(const std::shared_ptr<RealScheduler>& scheduler)
     : mNextPacketSEQ(1)
+    , mReferenceTime(0)
     , mPacketHistory(std::make_unique<twcc::PublishPacketHistory>())
     , mIsConnected(false)
     , mIsProbing(false)
@@ -174,11 +175,17 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
         return;
     }
 
-    const auto reference_time = static_cast<int32_t>(reference_time_and_fb_pkt_count >> 8);
+    // The reference time is 24 bits, and wraps
+    const auto reference_time_24 = static_cast<uint32_t>(reference_time_and_fb_pkt_count >> 8);
+    const auto reference_time_diff = (reference_time_24 - static_cast<uint32_t>(mReferenceTime)) & 0xFFFFFFu;
+    mReferenceTime += reference_time_diff;
+    if (reference_time_diff >= 0x800000u) {
+        mReferenceTime -= 0x1000000;
+    }
     const auto fb_pkt_count = static_cast<uint8_t>(reference_time_and_fb_pkt_count & 0xFFu);
     (void)fb_pkt_count;
 
-    const auto reference_time_micros = 64 * 1000 * static_cast<int64_t>(reference_time);
+    const auto reference_time_micros = 64 * 1000 * mReferenceTime;
 
     const auto tempList = mTempPacketBuffer.ensure(packet_status_count);
 
-- 
2.43.0


From ae15eedf90372f2c37021313cf3cf52d17089a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 047/118] fix: the priority in STUN binding requests
 overflowed, its type preference was out of range

---
 src/peer_candidate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..41f4197 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -102,7 +102,9 @@ stun::StunMessage make_stun_message_binding_request(const std::shared_ptr<srtc::
         stun_message_append_flag(&msg, stun::STUN_ATTRIBUTE_USE_CANDIDATE);
     }
 
-    const uint32_t priority = make_stun_priority(200, 10, 1);
+    // https://datatracker.ietf.org/doc/html/rfc8445#section-7.1.1
+    // The type preference is that of a peer reflexive candidate, and cannot be more than 126
+    const uint32_t priority = make_stun_priority(110, 10, 1);
     stun::stun_message_append32(&msg, stun::STUN_ATTRIBUTE_PRIORITY, priority);
 
     // https://datatracker.ietf.org/doc/html/rfc5245#section-7.1.2.3
-- 
2.43.0


From eb01c33c0a64c33e627e2b3ab981b3cea45b054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 048/118] fix: the round trip time from RTCP reports is twice
 what it is

---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..71122c6 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // This is there and back, see https://datatracker.ietf.org/doc/html/rfc3550#section-6.4.1
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..d044319 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // This is there and back, see https://datatracker.ietf.org/doc/html/rfc3550#section-6.4.1
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From dac7c94fb123ab5d25064e3fab2e79d8bd9bb21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 049/118] fix: SRTCP indexes are used more than once with the
 same key and source

---
 src/peer_candidate.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 41f4197..06f9e35 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1396,10 +1396,12 @@ void PeerCandidate::forgetExpiredStunRequests()
         mScheduler.submit(kExpireStunPeriod, __FILE__, __LINE__, [this] { forgetExpiredStunRequests(); });
 }
 
-void PeerCandidate::sendRtcpPacket(const std::shared_ptr<Track>& track, const std::shared_ptr<RtcpPacket>& packet)
+void PeerCandidate::sendRtcpPacket([[maybe_unused]] const std::shared_ptr<Track>& track,
+                                   const std::shared_ptr<RtcpPacket>& packet)
 {
-    const auto source = track->getRtcpPacketSource();
-    sendRtcpPacket(source, packet);
+    // Several kinds of packets are sent with the same SSRC, or with none, and the index must not repeat for any
+    // https://datatracker.ietf.org/doc/html/rfc3711#section-9.1
+    sendRtcpPacket(mControlPacketSource, packet);
 }
 
 void PeerCandidate::sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source,
-- 
2.43.0


From 0e2e1db890037f89fc81a633c175f5734b95bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 050/118] fix: connections which have only data channels crash

---
 src/peer_candidate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 06f9e35..1cd15a3 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -348,7 +348,8 @@ void PeerCandidate::sendPublishReports()
         }
     }
 
-    if (mDirection == Direction::Publish && !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
+    if (mDirection == Direction::Publish && mControlPacketSource &&
+        !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
         // XR - DLRR if we have received RTRR's
         // https://datatracker.ietf.org/doc/html/rfc3611#section-4.5
 
@@ -393,6 +394,11 @@ void PeerCandidate::sendPublishReports()
 void PeerCandidate::sendSubscribeReports()
 {
     const auto source = mControlPacketSource;
+    if (!source) {
+        // There is only a data channel
+        return;
+    }
+
     std::vector<std::shared_ptr<RtcpPacket>> packetList;
 
     if (mDirection == Direction::Subscribe) {
@@ -803,7 +809,7 @@ void PeerCandidate::run()
     }
 
     // TWCC
-    if (mResponderTWCC) {
+    if (mResponderTWCC && !mTrackList.empty()) {
         const auto track = mTrackList.front();
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
-- 
2.43.0


From 2c35da14b2faca748dbfed334d9e16dac3ce1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 051/118] fix: the stream index of a simulcast layer counts
 layers which were not accepted

---
 src/sdp_answer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..2a65716 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -215,6 +215,13 @@ void ParseMediaState::clear()
 void ParseMediaState::addSimulcastLayer(const std::vector<srtc::SimulcastLayer>& offerLayerList,
                                         const std::string& ridName)
 {
+    for (const auto& layer : layerList) {
+        if (layer.name == ridName) {
+            // Already have it
+            return;
+        }
+    }
+
     for (size_t i = 0; i < offerLayerList.size(); i += 1) {
         const auto& layer = offerLayerList[i];
         if (layer.name == ridName) {
@@ -226,7 +233,8 @@ void ParseMediaState::addSimulcastLayer(const std::vector<srtc::SimulcastLayer>&
                     layer.frames_per_second,
                     layer.kilobits_per_second,
                 },
-                static_cast<uint8_t>(i),
+                // Among those which will be sent
+                static_cast<uint8_t>(layerList.size()),
             });
             break;
         }
-- 
2.43.0


From 4d4ec91577c7e82aa32d8eddcad8746db08f0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 052/118] fix: what the extension map finds depends on earlier
 look-ups when it has duplicates

---
 src/extension_map.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/extension_map.cpp b/src/extension_map.cpp
index 7a2e7d3..9707903 100644
--- a/src/extension_map.cpp
+++ b/src/extension_map.cpp
@@ -35,15 +35,8 @@ uint8_t ExtensionMap::findByName(const std::string& name) const
 
 std::string ExtensionMap::findById(uint8_t id) const
 {
-    if (mLastId == id && !mLastName.empty()) {
-        return mLastName;
-    }
-
     for (const auto& entry : mEntryList) {
         if (entry.id == id) {
-            mLastName = entry.name;
-            mLastId = entry.id;
-
             return entry.name;
         }
     }
-- 
2.43.0


From a469c9a286d69e0f6cd07cd858a7f04f9d14cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 053/118] fix: generating an offer again made new sources while
 the old ones stayed in use

---
 include/srtc/sdp_offer.h |  1 +
 src/sdp_offer.cpp        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 9a655cc..eba25a2 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -160,6 +160,7 @@ private:
         }
     };
 
+    std::string mGenerated;
     std::vector<MediaLineGenerated> mMediaLineGeneratedList;
     std::shared_ptr<RtcpPacketSource> mControlPacketSource;
 };
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..344692c 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -79,6 +79,13 @@ const SdpOffer::Config& SdpOffer::getConfig() const
 
 std::pair<std::string, Error> SdpOffer::generate()
 {
+    if (!mGenerated.empty()) {
+        // The identifiers in it are already in use
+        return { mGenerated, Error::OK };
+    }
+
+    mMediaLineGeneratedList.clear();
+
     const bool hasMedia = !mMediaLineList.empty();
     const bool hasData = !mConfig.data_channels.empty();
 
@@ -307,7 +314,9 @@ std::pair<std::string, Error> SdpOffer::generate()
         ss << "a=max-message-size:" << kSctpMaxMessageSize << std::endl;
     }
 
-    return { ss.str(), Error::OK };
+    mGenerated = ss.str();
+
+    return { mGenerated, Error::OK };
 }
 
 std::string SdpOffer::getIceUFrag() const
-- 
2.43.0


From f5065a7aaaefe5f6d38338f3311ae56281b28b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 054/118] fix: offers with a media id used twice, or with
 payload ids above 127, were generated

---
 src/sdp_offer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 344692c..3743be3 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -143,6 +143,19 @@ std::pair<std::string, Error> SdpOffer::generate()
             }
         }
 
+        if (mediaLine.id == "datachannel" && hasData) {
+            return { "", { Error::Code::InvalidData, "The media id is reserved for data channels" } };
+        }
+        for (const auto& generated : mMediaLineGeneratedList) {
+            if (generated.mediaId == mediaLine.id) {
+                return { "", { Error::Code::InvalidData, "A media id is used more than once" } };
+            }
+        }
+
+        if (payloadId + codecList.size() * (mConfig.enable_rtx ? 2 : 1) > 128u) {
+            return { "", { Error::Code::InvalidData, "Too many codecs, there are no more payload ids" } };
+        }
+
         mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);
         auto& mediaLineGenerated = mMediaLineGeneratedList.back();
         mediaLineGenerated.mediaType = mediaLine.mediaType;
-- 
2.43.0


From 151e25f360472d73ed15aeb380159566d1cc375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 055/118] fix: the clock rate of audio retransmission in the
 offer did not match the audio's

---
 src/sdp_offer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 3743be3..e34a64a 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -219,7 +219,8 @@ std::pair<std::string, Error> SdpOffer::generate()
 
             if (mConfig.enable_rtx) {
                 const auto payloadIdRtx = payloadId + 1;
-                ss << "a=rtpmap:" << payloadIdRtx << " rtx/90000" << std::endl;
+                ss << "a=rtpmap:" << payloadIdRtx << (item.codec == Codec::Opus ? " rtx/48000" : " rtx/90000")
+                   << std::endl;
                 ss << "a=fmtp:" << payloadIdRtx << " apt=" << payloadId << std::endl;
 
                 payloadId += 2;
-- 
2.43.0


From 6376aa70282bd8b37cc186084974b58e8a785e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 056/118] fix: when simulcast was offered but not accepted,
 video was sent with an ssrc of zero

---
 src/sdp_offer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index e34a64a..5df39fd 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -303,8 +303,16 @@ std::pair<std::string, Error> SdpOffer::generate()
                     mControlPacketSource = std::make_shared<RtcpPacketSource>(layerGenerated.ssrc);
                 }
 
+                if (mediaLineGenerated.ssrc == 0) {
+                    // In case the answer doesn't accept simulcast
+                    mediaLineGenerated.ssrc = layerGenerated.ssrc;
+                }
+
                 if (mConfig.enable_rtx) {
                     layerGenerated.rtx = 1 + mRandomGenerator.next();
+                    if (mediaLineGenerated.rtx == 0) {
+                        mediaLineGenerated.rtx = layerGenerated.rtx;
+                    }
 
                     ss << "a=ssrc:" << layerGenerated.rtx << " cname:" << mConfig.cname << std::endl;
                     ss << "a=ssrc:" << layerGenerated.rtx << " msid:" << mConfig.cname << " " << msid << std::endl;
-- 
2.43.0


From d8504b1d1060f521ab19ae1051ee060ca35f850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 057/118] fix: an answer with a media id which was not offered
 aborted the application

---
 src/sdp_answer.cpp | 4 ++++
 src/sdp_offer.cpp  | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 2a65716..f20689c 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -765,6 +765,10 @@ Error SdpAnswerParser::flush_m()
         if (direction == Direction::Publish) {
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
 
+            if (publishSSRC.first == 0) {
+                return { Error::Code::InvalidData, "The answer has a media id that was not offered" };
+            }
+
             mediaState.ssrc = publishSSRC.first;
             mediaState.rtxSsrc = publishSSRC.second;
         }
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 5df39fd..ff075e8 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -378,8 +378,7 @@ std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId)
         }
     }
 
-    // We should not get here
-    assert(false);
+    // Not one that we offered
     return {};
 }
 
-- 
2.43.0


From 6cb56adc1fffffe6419507ffa11e3b70d8e72295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 058/118] fix: media sections rejected by the answer were
 treated as accepted

---
 src/sdp_answer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f20689c..1b152f3 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -486,6 +486,11 @@ Error SdpAnswerParser::parseLine_m(const std::string& key,
     isInApplicationSection = false;
     isInMediaSection = false;
 
+    // "m=video 0 UDP/TLS/RTP/SAVPF 96" - rejected
+    if (!props.empty() && props[0] == "0") {
+        return Error::OK;
+    }
+
     // "m=application 9 UDP/DTLS/SCTP webrtc-datachannel"
     if (key == "application") {
         if (props.size() >= 2 && props[1] == "UDP/DTLS/SCTP") {
-- 
2.43.0


From 0acc24b7fdaacd7cca5fe92086e492e49f348ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 059/118] fix: offers with a simulcast layer name used twice
 were generated

---
 src/sdp_offer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index ff075e8..96647e3 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -270,6 +270,13 @@ std::pair<std::string, Error> SdpOffer::generate()
             }
 
             for (const auto& layer : layerList) {
+                for (const auto& generated : mediaLineGenerated.layer) {
+                    if (generated.name == layer.name) {
+                        return { "", { Error::Code::InvalidData, "A simulcast layer name is used more than once" } };
+                    }
+                }
+                mediaLineGenerated.layer.emplace_back(layer.name);
+
                 ss << "a=rid:" << layer.name << " send";
 
                 if (mConfig.enable_rfc8851) {
@@ -291,9 +298,7 @@ std::pair<std::string, Error> SdpOffer::generate()
             }
             ss << std::endl;
 
-            for (const auto& layer : layerList) {
-                mediaLineGenerated.layer.emplace_back(layer.name);
-                auto& layerGenerated = mediaLineGenerated.layer.back();
+            for (auto& layerGenerated : mediaLineGenerated.layer) {
                 layerGenerated.ssrc = 1 + mRandomGenerator.next();
 
                 ss << "a=ssrc:" << layerGenerated.ssrc << " cname:" << mConfig.cname << std::endl;
-- 
2.43.0


From cea70731582b49b13cc60add72f6d3922f45580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 060/118] fix: empty, negative and too large numbers in an
 answer were taken for other numbers

---
 src/sdp_answer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 1b152f3..9567df5 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -8,6 +8,8 @@
 #include "srtc/x509_hash.h"
 
 #include <algorithm>
+#include <cctype>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -101,9 +103,14 @@ void parse_map(const std::string& line, std::unordered_map<std::string, std::str
 
 std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 {
+    if (s.empty() || !std::isxdigit(static_cast<unsigned char>(s[0]))) {
+        // No sign, no leading space
+        return {};
+    }
+
     char* endptr = nullptr;
-    const auto l = std::strtoul(s.c_str(), &endptr, radix);
-    if (endptr == s.c_str() + s.size()) {
+    const auto l = std::strtoull(s.c_str(), &endptr, radix);
+    if (endptr == s.c_str() + s.size() && l <= std::numeric_limits<uint32_t>::max()) {
         return static_cast<uint32_t>(l);
     }
     return {};
@@ -688,7 +695,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From f2736fc02de14e2dee5540114adaf5010efdb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 061/118] fix: retransmission was lost when fmtp came before
 rtpmap in an answer

---
 src/sdp_answer.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 9567df5..f8aee66 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -169,6 +169,7 @@ struct ParsePayloadState {
     std::shared_ptr<srtc::Track::CodecOptions> codecOptions;
     uint32_t clockRate = { 0 };
     uint8_t rtxPayloadId = { 0 };
+    uint8_t aptPayloadId = { 0 };
     bool hasNack = { false };
     bool hasPli = { false };
 };
@@ -193,6 +194,8 @@ struct ParseMediaState {
 
     void setPayloadList(const std::vector<uint8_t>& list);
 
+    void resolveRtx();
+
     [[nodiscard]] ParsePayloadState* getPayloadState(uint8_t payloadId) const;
 
     [[nodiscard]] std::shared_ptr<srtc::Media> createMedia() const;
@@ -257,6 +260,19 @@ void ParseMediaState::setPayloadList(const std::vector<uint8_t>& list)
     }
 }
 
+void ParseMediaState::resolveRtx()
+{
+    for (size_t i = 0u; i < payloadStateSize; i += 1) {
+        const auto& payloadState = payloadStateList[i];
+        if (payloadState.codec == srtc::Codec::Rtx && payloadState.aptPayloadId != 0) {
+            const auto referencedPayloadState = getPayloadState(payloadState.aptPayloadId);
+            if (referencedPayloadState) {
+                referencedPayloadState->rtxPayloadId = payloadState.payloadId;
+            }
+        }
+    }
+}
+
 ParsePayloadState* ParseMediaState::getPayloadState(uint8_t payloadId) const
 {
     for (size_t i = 0u; i < payloadStateSize; i += 1) {
@@ -610,14 +626,10 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
 
                 if (const auto iter1 = map.find("apt"); iter1 != map.end()) {
                     const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-                    if (payloadState && payloadState->codec == Codec::Rtx) {
+                    if (payloadState) {
                         if (const auto referencedPayloadId = parse_u32(iter1->second);
                             referencedPayloadId.has_value() && is_valid_payload_id(referencedPayloadId.value())) {
-                            const auto referencedPayloadIdValue = static_cast<uint8_t>(referencedPayloadId.value());
-                            const auto referencedPayloadState = mediaState.getPayloadState(referencedPayloadIdValue);
-                            if (referencedPayloadState) {
-                                referencedPayloadState->rtxPayloadId = payloadIdValue;
-                            }
+                            payloadState->aptPayloadId = static_cast<uint8_t>(referencedPayloadId.value());
                         }
                     }
                 }
@@ -785,6 +797,9 @@ Error SdpAnswerParser::flush_m()
             mediaState.rtxSsrc = publishSSRC.second;
         }
 
+        // All the attributes are known now, whichever order they came in
+        mediaState.resolveRtx();
+
         // Create media and track
         const auto media = mediaState.createMedia();
 
-- 
2.43.0


From 5c02f25c42d91455e4b80f7d9cddc479961bac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 062/118] fix: simulcast was lost when its line came before the
 media id in an answer

---
 src/sdp_answer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f8aee66..f1a6103 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -179,6 +179,7 @@ struct ParseMediaState {
     std::string mediaId;
     srtc::ExtensionMap extensionMap;
     std::vector<std::string> ridList;
+    std::vector<std::string> simulcastRidList;
     std::vector<srtc::Track::SimulcastLayer> layerList;
 
     size_t payloadStateSize = { 0u };
@@ -214,6 +215,7 @@ void ParseMediaState::clear()
     mediaId.clear();
     extensionMap.clear();
     ridList.clear();
+    simulcastRidList.clear();
     layerList.clear();
     payloadStateSize = 0;
     payloadStateList.reset();
@@ -694,13 +696,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=simulcast recv low;mid;hi
         if (isInMediaSection && mediaState.mediaType.value() == MediaType::Video) {
             if (value == "recv" && props.size() == 1) {
-                const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
-                if (offerLayerList.has_value() && !offerLayerList->empty()) {
-                    const auto ridList = split_list(props[0]);
-                    for (const auto& ridName : ridList) {
-                        mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
-                    }
-                }
+                mediaState.simulcastRidList = split_list(props[0]);
             }
         }
     } else if (key == "candidate") {
@@ -800,6 +796,13 @@ Error SdpAnswerParser::flush_m()
         // All the attributes are known now, whichever order they came in
         mediaState.resolveRtx();
 
+        const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
+        if (offerLayerList.has_value() && !offerLayerList->empty()) {
+            for (const auto& ridName : mediaState.simulcastRidList) {
+                mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
+            }
+        }
+
         // Create media and track
         const auto media = mediaState.createMedia();
 
-- 
2.43.0


From 80dd00f681a00bccfe8d5be0c92c75ac431962aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 063/118] fix: format parameters with spaces between them were
 ignored

---
 src/sdp_answer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f1a6103..f49fea8 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -620,11 +620,17 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=fmtp:100 level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42001f
         if (const auto payloadId = parse_u32(value);
             payloadId.has_value() && is_valid_payload_id(payloadId.value()) && isInMediaSection) {
-            if (props.size() == 1) {
+            if (!props.empty()) {
                 const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
 
+                // There can be spaces after semicolons
+                std::string joined;
+                for (const auto& prop : props) {
+                    joined += prop;
+                }
+
                 std::unordered_map<std::string, std::string> map;
-                parse_map(props[0], map);
+                parse_map(joined, map);
 
                 if (const auto iter1 = map.find("apt"); iter1 != map.end()) {
                     const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-- 
2.43.0


From a4650641dd0bf042bbfb386ac9535ac86de9c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 064/118] fix: feedback for all payloads was ignored, and nack
 pli was taken for nack too

---
 src/sdp_answer.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f49fea8..c90380a 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -676,17 +676,17 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         }
     } else if (key == "rtcp-fb") {
         // a=rtcp-fb:98 nack pli
-        if (const auto payloadId = parse_u32(value);
-            payloadId.has_value() && is_valid_payload_id(payloadId.value()) && isInMediaSection) {
-            const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
-            const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-            if (payloadState) {
-                for (size_t i = 0u; i < props.size(); i += 1) {
-                    const auto& token = props[i];
-                    if (token == "nack") {
-                        payloadState->hasNack = true;
-                    } else if (token == "pli") {
-                        payloadState->hasPli = true;
+        // a=rtcp-fb:98 nack
+        // a=rtcp-fb:* nack
+        if (isInMediaSection && !props.empty() && props[0] == "nack") {
+            const auto payloadId = parse_u32(value);
+            for (size_t i = 0u; i < mediaState.payloadStateSize; i += 1) {
+                auto& payloadState = mediaState.payloadStateList[i];
+                if (value == "*" || payloadId == payloadState.payloadId) {
+                    if (props.size() == 1) {
+                        payloadState.hasNack = true;
+                    } else if (props[1] == "pli") {
+                        payloadState.hasPli = true;
                     }
                 }
             }
-- 
2.43.0


From 569c7ef0463e4b408a9709d429385e473bd82d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 065/118] fix: names of codecs, transports and hashes were
 compared with case, and other hashes replaced the one we use

---
 src/sdp_answer.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index c90380a..9bde72b 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -116,21 +116,33 @@ std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
     return {};
 }
 
-std::optional<srtc::Codec> parse_codec(const std::string& s)
+std::string to_lower(const std::string& s)
 {
-    if (s == "VP8") {
+    std::string res(s);
+    std::transform(res.begin(), res.end(), res.begin(), [](unsigned char ch) {
+        return static_cast<char>(std::tolower(ch));
+    });
+    return res;
+}
+
+std::optional<srtc::Codec> parse_codec(const std::string& name)
+{
+    // Not case sensitive
+    const auto s = to_lower(name);
+
+    if (s == "vp8") {
         return srtc::Codec::VP8;
     }
-    if (s == "VP9") {
+    if (s == "vp9") {
         return srtc::Codec::VP9;
     }
-    if (s == "H264") {
+    if (s == "h264") {
         return srtc::Codec::H264;
     }
-    if (s == "H265") {
+    if (s == "h265") {
         return srtc::Codec::H265;
     }
-    if (s == "AV1") {
+    if (s == "av1") {
         return srtc::Codec::AV1;
     }
     if (s == "opus") {
@@ -569,9 +581,10 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         }
     } else if (key == "fingerprint") {
         if (props.size() == 1) {
-            certHashAlg = value;
-            if (certHashAlg == "sha-256") {
+            // There can be more than one
+            if (to_lower(value) == "sha-256") {
                 // TODO - for now
+                certHashAlg = "sha-256";
                 certHashBin = hex_to_bin(props[0]);
                 certHashHex = props[0];
             }
@@ -708,7 +721,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "candidate") {
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
-            if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
+            if (props[0] == "1" && to_lower(props[1]) == "udp" && props[5] == "typ" && props[6] == "host") {
                 if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
-- 
2.43.0


From 58c3ddc5c6bdbb4958d1e377350b1f482cdd928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 066/118] fix: header extensions with a direction or attributes
 in an answer were ignored

---
 src/sdp_answer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 9bde72b..7b2d7b2 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -590,9 +590,13 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
             }
         }
     } else if (key == "extmap") {
-        const auto id = parse_u32(value);
-        if (id.has_value() && id > 0u && id <= 255u) {
-            if (props.size() == 1 && isInMediaSection) {
+        // a=extmap:1 urn:ietf:params:rtp-hdrext:sdes:mid
+        // a=extmap:1/recvonly urn:ietf:params:rtp-hdrext:sdes:mid
+        const auto posSlash = value.find('/');
+        const auto id = parse_u32(value.substr(0, posSlash));
+        const auto isInactive = posSlash != std::string::npos && value.substr(posSlash + 1) == "inactive";
+        if (id.has_value() && id > 0u && id <= 255u && !isInactive) {
+            if (!props.empty() && isInMediaSection) {
                 mediaState.extensionMap.add(static_cast<uint8_t>(id.value()), props[0]);
             }
         }
-- 
2.43.0


From b393bd74bf97b4079697d9a2337fb3d895731d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 067/118] fix: max-message-size of an answer was misunderstood
 when zero or absent

---
 src/sdp_answer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 7b2d7b2..92c0461 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -421,7 +421,7 @@ private:
     bool isInApplicationSection = false;
     bool hasDataChannel = false;
     uint16_t sctpPort = 5000;
-    uint32_t maxSctpMessageSize = 262144;
+    uint32_t maxSctpMessageSize = 65536; // when not stated, https://datatracker.ietf.org/doc/html/rfc8841#section-6.1
 
     std::vector<std::shared_ptr<Media>> mediaList;
     std::vector<std::shared_ptr<Track>> trackList;
@@ -787,7 +787,8 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "max-message-size") {
         if (isInApplicationSection) {
             if (const auto size = parse_u32(value); size.has_value()) {
-                maxSctpMessageSize = size.value();
+                // Zero means that there is no limit
+                maxSctpMessageSize = size.value() > 0u ? size.value() : std::numeric_limits<uint32_t>::max();
             }
         }
     }
-- 
2.43.0


From c1a7f31b3127ff1e806b7c1061bc78798991bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 068/118] fix: a track selector which selects nothing aborted
 the application

---
 src/sdp_answer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 92c0461..d8ad949 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -352,7 +352,6 @@ std::shared_ptr<srtc::Track> ParseMediaState::selectTrack(srtc::Direction direct
     }
 
     const auto selected = selector == nullptr ? list[0] : selector->selectTrack(list);
-    assert(selected != nullptr);
     return selected;
 }
 
-- 
2.43.0


From 304a25339c315df7f52376e6a6041bf93b68f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 069/118] fix: the thread of a scheduler was started before the
 scheduler's members were constructed

---
 src/scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..03fb2fe 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -61,8 +61,10 @@ std::weak_ptr<Task> ThreadScheduler::TaskImpl::update(const std::chrono::millise
 }
 
 ThreadScheduler::ThreadScheduler(const std::string& name)
-    : mThread(&ThreadScheduler::threadFunc, this, name)
 {
+    // Not until all the members are there
+    std::lock_guard lock(mMutex);
+    mThread = std::thread(&ThreadScheduler::threadFunc, this, name);
 }
 
 ThreadScheduler::~ThreadScheduler()
-- 
2.43.0


From 0a13f6692dac34ce5cf1dada1ba2b4f415c79ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 070/118] fix: cancelling a task which was cancelled or updated
 before, or is the running one, waited forever

---
 include/srtc/scheduler.h |  3 +--
 src/scheduler.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..75240c7 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -105,8 +105,6 @@ private:
         const char* const mFile;
         const int mLine;
         const Func mFunc;
-
-        bool mIsCompleted = {false};
     };
 
     struct TaskImplLess {
@@ -128,6 +126,7 @@ private:
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+    std::shared_ptr<TaskImpl> mRunningTask SRTC_GUARDED_BY(mMutex);
 };
 
 // ----- LoopScheduler
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 03fb2fe..340a8dc 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -129,7 +129,12 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         return;
     }
 
-    mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || task->mIsCompleted; });
+    if (std::this_thread::get_id() == mThread.get_id()) {
+        // A task which cancels itself
+        return;
+    }
+
+    mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || mRunningTask != task; });
 }
 
 std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask,
@@ -165,8 +170,8 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
             std::unique_lock lock(mMutex);
 
             if (task) {
-                task->mIsCompleted = true;
                 task.reset();
+                mRunningTask.reset();
                 mCondVar.notify_all();
             }
 
@@ -204,6 +209,7 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
                 if (mTaskQueue.front()->mWhen <= std::chrono::steady_clock::now()) {
                     task = mTaskQueue.front();
                     mTaskQueue.erase(mTaskQueue.begin());
+                    mRunningTask = task;
                 }
             }
         }
-- 
2.43.0


From 4a6b29f1ae516980ff617ab4f69a1cdae4803773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 071/118] fix: a scheduler which was destroyed by one of its
 tasks was used afterwards

---
 include/srtc/scheduler.h |  1 +
 src/scheduler.cpp        | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 75240c7..6db93ca 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -124,6 +124,7 @@ private:
 
     std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
+    bool* mIsDestroyed = {nullptr}; // Only touched on our own thread
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
     std::shared_ptr<TaskImpl> mRunningTask SRTC_GUARDED_BY(mMutex);
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 340a8dc..4a0f596 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -79,6 +79,8 @@ ThreadScheduler::~ThreadScheduler()
     }
 
     if (std::this_thread::get_id() == thread.get_id()) {
+        // A task has dropped the last reference
+        *mIsDestroyed = true;
         thread.detach();
     } else {
         thread.join();
@@ -164,6 +166,12 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
 
     std::shared_ptr<TaskImpl> task;
 
+    auto isDestroyed = false;
+    {
+        std::lock_guard lock(mMutex);
+        mIsDestroyed = &isDestroyed;
+    }
+
     while (true) {
 
         {
@@ -216,6 +224,10 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
 
         if (task) {
             task->mFunc();
+
+            if (isDestroyed) {
+                return;
+            }
         }
     }
 }
@@ -321,6 +333,9 @@ void LoopScheduler::run()
 {
     assertCurrentThread();
 
+    // A task can drop the last other reference
+    const auto self = shared_from_this();
+
     while (!mTaskQueue.empty() && mTaskQueue.front()->mWhen <= std::chrono::steady_clock::now()) {
         const auto task = mTaskQueue.front();
         mTaskQueue.erase(mTaskQueue.begin());
-- 
2.43.0


From 92b839037635cf161983b22e4f503ee594ba5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 072/118] fix: destroying a scoped scheduler deadlocked with a
 running task which used it

---
 src/scheduler.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 4a0f596..1453dea 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -408,15 +408,25 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    // A task which is running now can use us, so cancelling, which waits for it, has to be done without the lock
+    while (true) {
+        std::list<std::shared_ptr<TaskImpl>> submitted;
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        {
+            std::lock_guard lock(mMutex);
+            submitted.swap(mSubmitted);
         }
-    }
 
-    mSubmitted.clear();
+        if (submitted.empty()) {
+            break;
+        }
+
+        for (const auto& iter : submitted) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
-- 
2.43.0


From 83ad48354b0883655f3ccf0183c223ad3f477bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 073/118] fix: the timeout of a loop scheduler overflowed for
 delays of more than 24 days

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 1453dea..0df3368 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -323,7 +323,7 @@ int LoopScheduler::getTimeoutMillis(int defaultValue) const
     if (diff <= std::chrono::milliseconds::zero()) {
         return 0;
     }
-    if (diff.count() > std::numeric_limits<unsigned int>::max()) {
+    if (diff.count() > std::numeric_limits<int>::max()) {
         return std::numeric_limits<int>::max();
     }
     return static_cast<int>(diff.count());
-- 
2.43.0


From e2eb2c84ca9dc2116a8ca81666a2f1cc1e7ea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 074/118] fix: cancelling a task which was updated while it was
 running did not wait for it

---
 include/srtc/scheduler.h |  3 +++
 src/scheduler.cpp        | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 6db93ca..7843a67 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -90,6 +90,7 @@ private:
     {
     public:
         TaskImpl(const std::weak_ptr<ThreadScheduler>& owner,
+                 uint64_t id,
                  const When& when,
                  const char* file,
                  int line,
@@ -101,6 +102,7 @@ private:
         std::weak_ptr<Task> update(const Delay& delay) override;
 
         const std::weak_ptr<ThreadScheduler> mOwner;
+        const uint64_t mId; // Stays the same when a task is updated
         const When mWhen;
         const char* const mFile;
         const int mLine;
@@ -128,6 +130,7 @@ private:
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
     std::shared_ptr<TaskImpl> mRunningTask SRTC_GUARDED_BY(mMutex);
+    std::atomic<uint64_t> mNextTaskId = {0};
 };
 
 // ----- LoopScheduler
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0df3368..0c13111 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -31,8 +31,9 @@ Scheduler::~Scheduler() = default;
 // ----- ThreadScheduler
 
 ThreadScheduler::TaskImpl::TaskImpl(
-    const std::weak_ptr<ThreadScheduler>& owner, const When& when, const char* file, int line, const Func& func)
+    const std::weak_ptr<ThreadScheduler>& owner, uint64_t id, const When& when, const char* file, int line, const Func& func)
     : mOwner(owner)
+    , mId(id)
     , mWhen(when)
     , mFile(file)
     , mLine(line)
@@ -93,7 +94,7 @@ std::weak_ptr<Task> ThreadScheduler::submit(const Delay& delay, const char* file
     assert(weak_from_this().lock());
 
     const auto when = std::chrono::steady_clock::now() + delay;
-    const auto task = std::make_shared<TaskImpl>(weak_from_this(), when, file, line, func);
+    const auto task = std::make_shared<TaskImpl>(weak_from_this(), mNextTaskId++, when, file, line, func);
 
     {
         std::lock_guard lock(mMutex);
@@ -128,7 +129,6 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), task); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
-        return;
     }
 
     if (std::this_thread::get_id() == mThread.get_id()) {
@@ -136,7 +136,10 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         return;
     }
 
-    mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || mRunningTask != task; });
+    // The running one can be the same task from before it was updated
+    mCondVar.wait(lock, [this, id = task->mId]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) {
+        return mIsQuit || mRunningTask == nullptr || mRunningTask->mId != id;
+    });
 }
 
 std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask,
@@ -150,7 +153,7 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     const auto when = std::chrono::steady_clock::now() + delay;
     const auto newTask =
-        std::make_shared<TaskImpl>(weak_from_this(), when, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
+        std::make_shared<TaskImpl>(weak_from_this(), oldTask->mId, when, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
 
     mTaskQueue.insert(std::upper_bound(mTaskQueue.begin(), mTaskQueue.end(), newTask, TaskImplLess()), newTask);
 
-- 
2.43.0


From d5f9183fd3e848b0458c7a69bb2382efa3847b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 075/118] fix: a scoped scheduler did not wait for a running
 task which had cancelled or updated itself

---
 src/scheduler.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0c13111..7db26d6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -464,9 +464,8 @@ void ScopedScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
 
     std::lock_guard lock(mMutex);
 
-    if (const auto iter = std::find(mSubmitted.begin(), mSubmitted.end(), task); iter != mSubmitted.end()) {
-        mSubmitted.erase(iter);
-    }
+    // One which is running and has cancelled itself is still ours
+    removeExpiredLocked();
 }
 
 std::weak_ptr<Task> ScopedScheduler::updateImpl(const std::shared_ptr<TaskImpl>& oldTask, const Delay& delay)
@@ -475,10 +474,7 @@ std::weak_ptr<Task> ScopedScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     removeExpiredLocked();
 
-    if (const auto iter = std::find(mSubmitted.begin(), mSubmitted.end(), oldTask); iter != mSubmitted.end()) {
-        mSubmitted.erase(iter);
-    }
-
+    // The old one stays ours while it's running
     if (const auto ptr = oldTask->mTask.lock()) {
         const auto updated = ptr->update(delay);
         const auto newTask = std::make_shared<TaskImpl>(this, updated, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
-- 
2.43.0


From 2ad5a7fcb5816f58837dda7ccd1b151dbdc72d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 076/118] fix: the padding of a STUN attribute could be written
 past the end of the buffer

---
 src/stun/stunmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index 82c0943..018d329 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -349,7 +349,7 @@ stun_message_append (StunMessage *msg, StunAttribute type, size_t length)
   }
  */
 
-  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + length > msg->buffer_len)
+  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + stun_align (length) > msg->buffer_len)
     return NULL;
 
 
-- 
2.43.0


From d51c125eb9ffb7a31380749356ef9657de3ddc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 077/118] fix: a STUN message whose user name does not fit was
 finished without it

---
 src/ice_agent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 541d127..436b945 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -82,7 +82,10 @@ bool IceAgent::finishMessage(stun::StunMessage* msg,
 							 const std::string& password)
 {
 	if (username.has_value()) {
-		stun::stun_message_append_string(msg, stun::STUN_ATTRIBUTE_USERNAME, username.value().c_str());
+		if (stun::stun_message_append_string(msg, stun::STUN_ATTRIBUTE_USERNAME, username.value().c_str()) !=
+			stun::STUN_MESSAGE_RETURN_SUCCESS) {
+			return false;
+		}
 	}
 
 	auto ptr = stun::stun_message_append(msg, stun::STUN_ATTRIBUTE_MESSAGE_INTEGRITY, 20);
-- 
2.43.0


From f53e42fe7e5eeabe2fa967d3806bad185e413e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 078/118] fix: a STUN message whose lengths are wrong was read
 past its end

---
 src/ice_agent.cpp      | 16 ++++++++++++++++
 src/peer_candidate.cpp |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 436b945..fd15130 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -16,6 +16,12 @@ namespace
 
 const auto kSoftware = "srtc";
 
+// All attributes are inside the message, and the message is inside the buffer
+bool isWellFormed(const stun::StunMessage* msg)
+{
+	return stun::stun_message_validate_buffer_length(msg->buffer, msg->buffer_len, true) > 0;
+}
+
 }
 
 namespace srtc
@@ -148,6 +154,11 @@ void IceAgent::forgetExpiredTransactions(const std::chrono::milliseconds& expira
 
 bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& username, const std::string& password)
 {
+	if (!isWellFormed(msg)) {
+		LOG(SRTC_LOG_E, "Request verification failed: not well formed");
+		return false;
+	}
+
 	// Fingerprint
 	uint16_t attrFingerprintLen = { 0 };
 	auto attrFingerprintPtr = stun::stun_message_find(msg, stun::STUN_ATTRIBUTE_FINGERPRINT, &attrFingerprintLen);
@@ -213,6 +224,11 @@ bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& u
 
 bool IceAgent::verifyResponseMessage(stun::StunMessage* msg, const std::string& password)
 {
+	if (!isWellFormed(msg)) {
+		LOG(SRTC_LOG_E, "Response verification failed: not well formed");
+		return false;
+	}
+
 	// Fingerprint
 	uint16_t attrFingerprintLen = { 0 };
 	auto attrFingerprintPtr = stun::stun_message_find(msg, stun::STUN_ATTRIBUTE_FINGERPRINT, &attrFingerprintLen);
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 1cd15a3..fa05b73 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -870,6 +870,11 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
     incomingMessage.buffer = const_cast<uint8_t*>(data.buf.data());
     incomingMessage.buffer_len = data.buf.size();
 
+    if (stun::stun_message_validate_buffer_length(incomingMessage.buffer, incomingMessage.buffer_len, true) <= 0) {
+        LOG(SRTC_LOG_E, "STUN message is not well formed, ignoring");
+        return;
+    }
+
     const auto stunMessageClass = stun::stun_message_get_class(&incomingMessage);
     const auto stunMessageMethod = stun::stun_message_get_method(&incomingMessage);
 
-- 
2.43.0


From e7298e9620a2dc607781946a8e56ef6e0c0095db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 079/118] fix: a forged STUN response used up the transaction
 of the genuine one, and its round trip time was believed

---
 src/peer_candidate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index fa05b73..72892e7 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -905,6 +905,12 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
             LOG(SRTC_LOG_V, "STUN response error code: %d", errorCode);
         }
 
+        if (!mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            // The transaction is still waiting for its response, which is not this one
+            LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+            return;
+        }
+
         uint8_t id[STUN_MESSAGE_TRANS_ID_LEN];
         stun::stun_message_id(&incomingMessage, id);
 
@@ -914,7 +920,7 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
 
             mIceRttFilter.update(rtt);
 
-            if (errorCode == 0 && mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            if (errorCode == 0) {
                 if (mSentUseCandidate) {
                     // Keep-alive
                     LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
@@ -935,7 +941,7 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
                     mDtlsState = DtlsState::Activating;
                 }
             } else {
-                LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+                LOG(SRTC_LOG_E, "STUN response has an error code, ignoring");
             }
         }
     }
-- 
2.43.0


From df720d8c48cc08d2fb44f8f3f2ab4366429355f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 080/118] fix: the gap blocks of a SCTP acknowledgment were
 read past its end

---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..e34e4a7 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -673,6 +673,11 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (r.remaining() < static_cast<size_t>(numGapBlocks) * 4) {
+        LOG(SRTC_LOG_W, "SACK is too small for its %u gap blocks, discarding", numGapBlocks);
+        return;
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From d5dd87bd1d586b3def37bc19451deeea3a11f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 081/118] fix: chunks bundled with a SCTP INIT chunk were
 processed without the right verification tag

---
 src/sctp/sctp_session.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e34e4a7..65d5114 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -388,6 +388,13 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 
     // RFC 4960 §8.5: verify verification tag — 0 for INIT, our tag for everything else
     const bool isInit = !packet->chunks().empty() && packet->chunks()[0].type == kChunkInit;
+    for (const auto& chunk : packet->chunks()) {
+        // RFC 4960 §6.10: INIT and INIT ACK are never bundled with other chunks
+        if ((chunk.type == kChunkInit || chunk.type == kChunkInitAck) && packet->chunks().size() != 1) {
+            LOG(SRTC_LOG_W, "recv: INIT or INIT_ACK bundled with other chunks, discarding");
+            return;
+        }
+    }
     const uint32_t expectedTag = isInit ? 0 : mInitiateTag;
     if (packet->verificationTag() != expectedTag) {
         LOG(SRTC_LOG_W,
-- 
2.43.0


From 24640802e8192c6e04cbb44f1ef3f096636ea42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 082/118] fix: a SCTP association set up by the peer was not
 used, and a late INIT lost track of what was received

---
 src/sctp/sctp_session.cpp | 47 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 65d5114..038635f 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -87,6 +87,11 @@ SctpSession::~SctpSession()
 
 void SctpSession::start()
 {
+    if (mState != State::New) {
+        // The peer was faster
+        return;
+    }
+
     sendInit(0);
 }
 
@@ -270,10 +275,12 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+
+    // RFC 4960 §3.3.2: these are never zero
+    if (peerInitiateTag == 0 || peerOutStreams == 0 || peerInStreams == 0)
+        return;
+
+    // RFC 4960 §5.1: what the peer says here is kept in the cookie only, this may be a late duplicate
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -366,9 +373,35 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
         return;
     }
 
-    // Read peerInitiateTag from cookie (offset 20)
+    // Read the peer's values from cookie (offset 20)
     r.skip(12); // localPort, remotePort, ourInitiateTag, ourInitialTsn
     const uint32_t peerInitiateTag = r.readU32();
+    const uint32_t peerInitialTsn = r.readU32();
+    const uint32_t peerRwnd = r.readU32();
+    const uint16_t peerOutStreams = r.readU16();
+    const uint16_t peerInStreams = r.readU16();
+
+    const auto isEstablished = mState == State::Established;
+    if (isEstablished && peerInitiateTag != mPeerTag) {
+        LOG(SRTC_LOG_W, "COOKIE_ECHO of another association, discarding");
+        return;
+    }
+
+    // RFC 4960 §5.2.4: the peer has our parameters, and these are the peer's
+    if (!isEstablished) {
+        Task::cancelHelper(mTaskT1Init);
+        Task::cancelHelper(mTaskT1Cookie);
+
+        if (mState != State::CookieEchoed || peerInitiateTag != mPeerTag) {
+            mPeerTag = peerInitiateTag;
+            mPeerRwnd = peerRwnd;
+            mPeerOutStreams = peerOutStreams;
+            mPeerInStreams = peerInStreams;
+            mPeerCumulativeTsn = peerInitialTsn - 1;
+        }
+
+        mState = State::Established;
+    }
 
     // Send COOKIE_ACK
     SctpPacketBuilder builder(mLocalPort, mRemotePort, peerInitiateTag);
@@ -376,6 +409,10 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     auto packet = builder.build();
 
     mListener->onSctpSendPacket(packet);
+
+    if (!isEstablished) {
+        onAssociationEstablished();
+    }
 }
 
 void SctpSession::onReceiveData(const ByteBuffer& buf)
-- 
2.43.0


From 0931398d55a6e4bba7083968e8353aa36e6d3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 083/118] fix: a SCTP INIT ACK which cannot be used changed
 what is known of the peer

---
 src/sctp/sctp_session.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 038635f..269ef91 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -468,16 +468,27 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkInitAck:
             if (mState == State::CookieWait && chunk.size >= 16) {
                 ByteReader r(chunk.data, chunk.size);
-                mPeerTag = r.readU32();
-                mPeerRwnd = r.readU32();
-                mPeerOutStreams = r.readU16();
-                mPeerInStreams = r.readU16();
-                mPeerCumulativeTsn = r.readU32() - 1; // peerInitialTsn - 1
+                const auto peerTag = r.readU32();
+                const auto peerRwnd = r.readU32();
+                const auto peerOutStreams = r.readU16();
+                const auto peerInStreams = r.readU16();
+                const auto peerInitialTsn = r.readU32();
+
+                // RFC 4960 §3.3.3: these are never zero
+                if (peerTag == 0 || peerOutStreams == 0 || peerInStreams == 0) {
+                    break;
+                }
 
                 for (const auto& param : chunk.parseParams(16)) {
                     if (param.type == kParamStateCookie) {
                         Task::cancelHelper(mTaskT1Init);
 
+                        mPeerTag = peerTag;
+                        mPeerRwnd = peerRwnd;
+                        mPeerOutStreams = peerOutStreams;
+                        mPeerInStreams = peerInStreams;
+                        mPeerCumulativeTsn = peerInitialTsn - 1;
+
                         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
                         builder.addChunk(kChunkCookieEcho, 0, param.data, param.size);
                         mCookieEchoPacket = builder.build();
-- 
2.43.0


From 4082d2b090220b90e84ee94d987c1e1bda3e50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 084/118] fix: a data channel message was put together from
 fragments without its beginning, or with those of others

---
 src/sctp/data_channel_receive_buffer.cpp | 15 +++++++++++++--
 src/sctp/data_channel_receive_buffer.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sctp/data_channel_receive_buffer.cpp b/src/sctp/data_channel_receive_buffer.cpp
index 904dca1..2c7cc98 100644
--- a/src/sctp/data_channel_receive_buffer.cpp
+++ b/src/sctp/data_channel_receive_buffer.cpp
@@ -26,7 +26,18 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
     }
 
     // Accumulate fragment into the pending entry for this SSN.
-    auto& pending = mPending[ssn];
+    auto& pendingMap = unordered ? mPendingUnordered : mPending;
+    const auto known = pendingMap.find(ssn);
+    if (!isFirst && known == pendingMap.end()) {
+        // The beginning of this message is not there
+        return out;
+    }
+    if (!unordered && known != pendingMap.end() && known->second.complete) {
+        // A duplicate of a message which waits for an earlier one
+        return out;
+    }
+
+    auto& pending = pendingMap[ssn];
     if (isFirst) {
         pending.ppid = ppid;
         pending.payload.clear();
@@ -39,7 +50,7 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
     if (unordered) {
         if (pending.complete) {
             out.push_back({ pending.ppid, ByteBuffer(pending.payload.data(), pending.payload.size()) });
-            mPending.erase(ssn);
+            pendingMap.erase(ssn);
         }
         return out;
     }
diff --git a/src/sctp/data_channel_receive_buffer.h b/src/sctp/data_channel_receive_buffer.h
index 17ab35d..ecbdc8a 100644
--- a/src/sctp/data_channel_receive_buffer.h
+++ b/src/sctp/data_channel_receive_buffer.h
@@ -38,6 +38,7 @@ private:
 
     uint16_t mNextSsn = 0;
     std::map<uint16_t, PendingMessage> mPending;
+    std::map<uint16_t, PendingMessage> mPendingUnordered;
 };
 
 } // namespace srtc::sctp
-- 
2.43.0


From 9de1fc500228a7f95b343cd7d1739c3e844c4a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 085/118] fix: data channel fragments received out of order
 were put together in that order

---
 src/sctp/sctp_session.cpp | 70 +++++++++++++++++++++++++++------------
 src/sctp/sctp_session.h   | 10 ++++--
 2 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 269ef91..d8e21dd 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -553,50 +553,72 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
+    // RFC 4960 §6: there is no association before
+    if (mState != State::CookieEchoed && mState != State::Established)
+        return;
+
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
     if (chunk.size < 12)
         return;
 
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
-    const auto streamId = r.readU16();
-    const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
-    const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
     const bool isDuplicate =
-        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderTsns.count(peerTSN) > 0;
+        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderChunks.count(peerTSN) > 0;
     if (isDuplicate) {
         sendSack();
         return;
     }
 
-    if (peerTSN == mPeerCumulativeTsn + 1) {
-        mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
-        while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
-                break;
-            mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+    if (peerTSN != mPeerCumulativeTsn + 1) {
+        // Fragments and messages need the ones before them, this has to wait. What cannot be kept is not
+        // acknowledged, and will be sent again.
+        if (mPeerOutOfOrderChunks.size() < 1024 && peerTSN - mPeerCumulativeTsn <= 0xFFFFu) {
+            mPeerOutOfOrderChunks.emplace(peerTSN,
+                                          ReceivedChunk{ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
         }
+        sendSack();
+        return;
+    }
+
+    // Now consecutive, with any that come next from the out-of-order set
+    std::list<ReceivedChunk> chunkList;
+    chunkList.push_back({ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
+    mPeerCumulativeTsn = peerTSN;
+
+    while (true) {
+        auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+        if (it == mPeerOutOfOrderChunks.end())
+            break;
+        mPeerCumulativeTsn++;
+        chunkList.push_back(std::move(it->second));
+        mPeerOutOfOrderChunks.erase(it);
     }
+
     sendSack();
 
+    for (const auto& item : chunkList) {
+        processDataChunk(item.flags, item.body.data(), item.body.size());
+    }
+}
+
+void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t size)
+{
+    ByteReader r(data, size);
+    r.skip(4); // TSN
+    const auto streamId = r.readU16();
+    const auto ssn = r.readU16();
+    const auto ppid = r.readU32();
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
@@ -819,8 +841,12 @@ void SctpSession::sendSack()
     };
     std::vector<GapBlock> gapBlocks;
 
-    if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+    if (!mPeerOutOfOrderChunks.empty()) {
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderChunks.size());
+        for (const auto& item : mPeerOutOfOrderChunks) {
+            tsns.push_back(item.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..a784a19 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -97,7 +97,12 @@ private:
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+
+    struct ReceivedChunk {
+        uint8_t flags;
+        ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
+    };
+    std::map<uint32_t, ReceivedChunk> mPeerOutOfOrderChunks; // received but not yet consecutive, by TSN
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -110,6 +115,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void processDataChunk(uint8_t flags, const uint8_t* data, size_t size);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From 239abacf75f5a665119b25d8d4012a54b748169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 086/118] fix: ordered messages on an unordered data channel,
 and the other way around, were delivered wrongly

---
 src/sctp/sctp_session.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index d8e21dd..c353ee0 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -617,8 +617,10 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
             if (channel.streamId != streamId) {
                 continue;
             }
+            // RFC 8832 §6: messages of an unordered channel are ordered until it's known to be open
+            const auto isUnordered = (flags & kDataFlagUnordered) != 0;
             const auto messages =
-                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, isUnordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
-- 
2.43.0


From 3e32f8ecb5cfc0a1a4a265ce2520755220f305ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 087/118] fix: empty data channel messages were sent without
 the byte which stands for them, and received with it

---
 src/sctp/sctp_session.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index c353ee0..e75e5bc 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -148,6 +148,13 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
     }
 
+    // RFC 8831 §6.6: SCTP cannot send nothing, an empty message is a single byte to be ignored
+    constexpr uint8_t kEmptyPayload = 0;
+    if (payloadSize == 0) {
+        payload = &kEmptyPayload;
+        payloadSize = 1;
+    }
+
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
     const bool wasEmpty = mSentChunks.empty();
@@ -622,7 +629,12 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
             const auto messages =
                 channel.receiveBuffer.receive(ssn, flags, isUnordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
-                if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+                if (msg.ppid == kPpidStringEmpty) {
+                    // RFC 8831 §6.6: there is a single byte to be ignored
+                    mListener->onSctpDataChannelText(channel.label, std::string());
+                } else if (msg.ppid == kPpidBinaryEmpty) {
+                    mListener->onSctpDataChannelBinary(channel.label, ByteBuffer());
+                } else if (msg.ppid == kPpidString) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
                     mListener->onSctpDataChannelText(channel.label, text);
                 } else {
-- 
2.43.0


From a0275c51b508e640b61d28794d546f963a309189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 088/118] fix: data channel messages were sent past ones which
 wait for the peer's window, never sent when larger than it, and shared a
 sequence number with the opening of the channel

---
 src/sctp/sctp_session.cpp | 174 ++++++++++++--------------------------
 src/sctp/sctp_session.h   |  13 ++-
 2 files changed, 65 insertions(+), 122 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e75e5bc..eeab345 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -122,55 +122,60 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
-        mPendingSend.emplace_back(std::move(message));
-        return;
-    }
-
-    sendMessageNow(*it, std::move(message));
-}
-
-void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& message)
-{
-    std::string textStorage;
-    const uint8_t* payload;
-    size_t payloadSize;
-    uint32_t ppid;
-
     if (message.kind == DataChannelMessage::Kind::kText) {
-        textStorage = std::move(message.text);
-        payload = reinterpret_cast<const uint8_t*>(textStorage.data());
-        payloadSize = textStorage.size();
-        ppid = payloadSize == 0 ? kPpidStringEmpty : kPpidString;
+        ByteBuffer payload(reinterpret_cast<const uint8_t*>(message.text.data()), message.text.size());
+        enqueue(*it, it->unordered, payload.empty() ? kPpidStringEmpty : kPpidString, std::move(payload));
     } else {
-        payload = message.binary.data();
-        payloadSize = message.binary.size();
-        ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
+        const auto ppid = message.binary.empty() ? kPpidBinaryEmpty : kPpidBinary;
+        enqueue(*it, it->unordered, ppid, std::move(message.binary));
     }
+}
 
+void SctpSession::enqueue(DataChannel& channel, bool unordered, uint32_t ppid, ByteBuffer&& payload)
+{
     // RFC 8831 §6.6: SCTP cannot send nothing, an empty message is a single byte to be ignored
-    constexpr uint8_t kEmptyPayload = 0;
-    if (payloadSize == 0) {
-        payload = &kEmptyPayload;
-        payloadSize = 1;
+    if (payload.empty()) {
+        payload.padding(0, 1);
     }
 
-    const uint16_t ssn = channel.sendSsn++;
-    const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
-    const bool wasEmpty = mSentChunks.empty();
+    const uint16_t ssn = unordered ? channel.sendSsn : channel.sendSsn++;
+    mPendingSend.push_back(PendingMessage{ channel.streamId, ssn, unordered, ppid, std::move(payload), 0 });
+
+    transmitPending();
+}
 
+void SctpSession::transmitPending()
+{
     constexpr size_t kMaxFragmentPayload = 1100;
 
-    auto sendFragment = [&](uint8_t flags, const uint8_t* fragPayload, size_t fragSize) {
+    const bool wasEmpty = mSentChunks.empty();
+
+    while (!mPendingSend.empty()) {
+        auto& message = mPendingSend.front();
+
+        // RFC 4960 §6.1: what is in flight has to fit the peer's window, except for when there is nothing
+        const size_t fragSize = std::min(message.payload.size() - message.offset, kMaxFragmentPayload);
+        if (!mSentChunks.empty() && mFlightSize + fragSize > mPeerRwnd) {
+            break;
+        }
+
+        uint8_t flags = message.unordered ? kDataFlagUnordered : 0;
+        if (message.offset == 0) {
+            flags |= kDataFlagB;
+        }
+        if (message.offset + fragSize == message.payload.size()) {
+            flags |= kDataFlagE;
+        }
+
         const uint32_t tsn = mCurrentTsn++;
 
         ByteBuffer chunkBody;
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
-        cw.writeU16(channel.streamId);
-        cw.writeU16(ssn);
-        cw.writeU32(ppid);
-        cw.write(fragPayload, fragSize);
+        cw.writeU16(message.streamId);
+        cw.writeU16(message.ssn);
+        cw.writeU32(message.ppid);
+        cw.write(message.payload.data() + message.offset, fragSize);
 
         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
         builder.addChunk(kChunkData, flags, chunkBody);
@@ -178,53 +183,18 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
 
         mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, std::move(chunkBody) });
         mFlightSize += static_cast<uint32_t>(fragSize);
-    };
 
-    if (payloadSize <= kMaxFragmentPayload) {
-        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
-    } else {
-        size_t offset = 0;
-        bool isFirst = true;
-        while (offset < payloadSize) {
-            const size_t fragSize = std::min(payloadSize - offset, kMaxFragmentPayload);
-            const bool isLast = (offset + fragSize >= payloadSize);
-            uint8_t flags = unorderedFlag;
-            if (isFirst)
-                flags |= kDataFlagB;
-            if (isLast)
-                flags |= kDataFlagE;
-            sendFragment(flags, payload + offset, fragSize);
-            offset += fragSize;
-            isFirst = false;
+        message.offset += fragSize;
+        if (message.offset == message.payload.size()) {
+            mPendingSend.pop_front();
         }
     }
 
-    if (wasEmpty) {
+    if (wasEmpty && !mSentChunks.empty()) {
         startT3Rtx();
     }
 }
 
-void SctpSession::transmitPending()
-{
-    while (!mPendingSend.empty()) {
-        auto& msg = mPendingSend.front();
-
-        auto it = std::find_if(
-            mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == msg.label; });
-        if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
-            mPendingSend.pop_front();
-            continue;
-        }
-
-        const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
-            break;
-
-        sendMessageNow(*it, std::move(msg));
-        mPendingSend.pop_front();
-    }
-}
-
 void SctpSession::sendInit(unsigned iteration)
 {
     if (iteration > kMaxInitRetransmits) {
@@ -532,30 +502,9 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     pw.writeU16(0); // protocol length
     pw.write(reinterpret_cast<const uint8_t*>(channel.label.data()), channel.label.size());
 
-    const bool wasEmpty = mSentChunks.empty();
-    const uint32_t tsn = mCurrentTsn++;
-    const size_t payloadSize = payload.size();
-
-    ByteBuffer chunkBody;
-    ByteWriter cw(chunkBody);
-    cw.writeU32(tsn);
-    cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
-    cw.writeU32(kPpidDcep);
-    cw.write(payload);
-
-    SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-    builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-    mListener->onSctpSendPacket(builder.build());
-
     channel.state = DataChannelState::kOpening;
 
-    mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, payloadSize, std::move(chunkBody) });
-    mFlightSize += static_cast<uint32_t>(payloadSize);
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
+    enqueue(channel, false, kPpidDcep, std::move(payload));
 }
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
@@ -679,28 +628,10 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
         channel.receiveBuffer.consumeSsn(ssn);
 
         // Send ACK
-        const bool wasEmpty = mSentChunks.empty();
-        const uint32_t tsn = mCurrentTsn++;
-        constexpr size_t kAckPayloadSize = 1;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(streamId);
-        cw.writeU16(0);
-        cw.writeU32(kPpidDcep);
-        cw.writeU8(kDcepMsgAck);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, kAckPayloadSize, std::move(chunkBody) });
-        mFlightSize += kAckPayloadSize;
-
-        if (wasEmpty) {
-            startT3Rtx();
-        }
+        ByteBuffer payload;
+        ByteWriter pw(payload);
+        pw.writeU8(kDcepMsgAck);
+        enqueue(channel, false, kPpidDcep, std::move(payload));
 
         mListener->onSctpDataChannelOpen(label);
     }
@@ -732,6 +663,10 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
                 if (it->streamId == streamId) {
                     mListener->onSctpDataChannelClose(it->label);
                     mDataChannels.erase(it);
+                    // What is partly sent needs its end
+                    mPendingSend.remove_if([streamId](const PendingMessage& message) {
+                        return message.streamId == streamId && message.offset == 0;
+                    });
                     break;
                 }
             }
@@ -815,9 +750,8 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         startT3Rtx(); // restart on progress
     }
 
-    if (anyNewlyAcked) {
-        transmitPending();
-    }
+    // The window may be larger even when nothing was acknowledged
+    transmitPending();
 }
 
 void SctpSession::retransmitOldest()
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index a784a19..e1346de 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -76,7 +76,16 @@ private:
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::list<SentChunk> mSentChunks;
-    std::list<DataChannelMessage> mPendingSend;
+
+    struct PendingMessage {
+        uint16_t streamId;
+        uint16_t ssn;
+        bool unordered;
+        uint32_t ppid;
+        ByteBuffer payload;
+        size_t offset; // of what comes next
+    };
+    std::list<PendingMessage> mPendingSend;
     uint32_t mFlightSize = 0;
 
     RandomGenerator<uint32_t> mRandom;
@@ -120,7 +129,7 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
-    void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
+    void enqueue(DataChannel& channel, bool unordered, uint32_t ppid, ByteBuffer&& payload);
     void transmitPending();
     void retransmitOldest();
     void startT3Rtx();
-- 
2.43.0


From ed983ca36cf2ac7113a7150e8bf1dbee201a000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 089/118] fix: data which a SCTP peer acknowledged as a gap was
 forgotten though it may be dropped, and acknowledgments for what wasn't sent
 were believed

---
 src/sctp/sctp_session.cpp | 46 +++++++++++++++++++++++++--------------
 src/sctp/sctp_session.h   |  3 ++-
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index eeab345..66b680d 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -181,7 +181,7 @@ void SctpSession::transmitPending()
         builder.addChunk(kChunkData, flags, chunkBody);
         mListener->onSctpSendPacket(builder.build());
 
-        mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, std::move(chunkBody) });
+        mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, false, std::move(chunkBody) });
         mFlightSize += static_cast<uint32_t>(fragSize);
 
         message.offset += fragSize;
@@ -712,6 +712,12 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         gapBlocks.emplace_back(start, end);
     }
 
+    // RFC 4960 §6.2.1: an old one, or one for what wasn't sent
+    const auto firstTsn = mSentChunks.empty() ? mCurrentTsn : mSentChunks.front().tsn;
+    if (static_cast<int32_t>(cumTsn - (firstTsn - 1)) < 0 || static_cast<int32_t>(cumTsn - mCurrentTsn) >= 0) {
+        return;
+    }
+
     mPeerRwnd = aRwnd;
 
     bool anyNewlyAcked = false;
@@ -720,7 +726,9 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     auto it = mSentChunks.begin();
     while (it != mSentChunks.end()) {
         if (static_cast<int32_t>(it->tsn - cumTsn) <= 0) {
-            mFlightSize = static_cast<uint32_t>(mFlightSize >= it->payloadSize ? mFlightSize - it->payloadSize : 0);
+            if (!it->gapAcked) {
+                mFlightSize -= static_cast<uint32_t>(it->payloadSize);
+            }
             it = mSentChunks.erase(it);
             anyNewlyAcked = true;
         } else {
@@ -728,20 +736,19 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         }
     }
 
-    // Remove gap-ACKed chunks
-    for (const auto& [gapStart, gapEnd] : gapBlocks) {
-        auto git = mSentChunks.begin();
-        while (git != mSentChunks.end()) {
-            const auto offset = static_cast<uint16_t>(git->tsn - cumTsn);
-            if (offset >= gapStart && offset <= gapEnd) {
-                mFlightSize =
-                    static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
-                git = mSentChunks.erase(git);
-                anyNewlyAcked = true;
-            } else {
-                ++git;
-            }
+    // RFC 4960 §6.2.1: gap-ACKed chunks are kept until they are cumulatively ACKed
+    for (auto& sent : mSentChunks) {
+        const auto offset = sent.tsn - cumTsn;
+        const auto gapAcked = std::any_of(gapBlocks.begin(), gapBlocks.end(), [offset](const auto& block) {
+            return offset >= block.first && offset <= block.second;
+        });
+        if (gapAcked && !sent.gapAcked) {
+            mFlightSize -= static_cast<uint32_t>(sent.payloadSize);
+            anyNewlyAcked = true;
+        } else if (!gapAcked && sent.gapAcked) {
+            mFlightSize += static_cast<uint32_t>(sent.payloadSize);
         }
+        sent.gapAcked = gapAcked;
     }
 
     if (mSentChunks.empty()) {
@@ -760,7 +767,14 @@ void SctpSession::retransmitOldest()
         return;
     }
 
-    const auto& chunk = mSentChunks.front();
+    // The peer already has what is gap-ACKed
+    auto it = std::find_if(
+        mSentChunks.begin(), mSentChunks.end(), [](const SentChunk& sent) { return !sent.gapAcked; });
+    if (it == mSentChunks.end()) {
+        it = mSentChunks.begin();
+    }
+
+    const auto& chunk = *it;
     SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
     builder.addChunk(kChunkData, chunk.flags, chunk.body);
     mListener->onSctpSendPacket(builder.build());
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e1346de..64b6ebe 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -73,6 +73,7 @@ private:
         uint32_t tsn;
         uint8_t flags;
         size_t payloadSize;
+        bool gapAcked; // received by the peer, which may still drop it
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::list<SentChunk> mSentChunks;
@@ -86,7 +87,7 @@ private:
         size_t offset; // of what comes next
     };
     std::list<PendingMessage> mPendingSend;
-    uint32_t mFlightSize = 0;
+    uint32_t mFlightSize = 0; // of what is not acknowledged
 
     RandomGenerator<uint32_t> mRandom;
 
-- 
2.43.0


From 585194352d714eb2d2dec0a3a29a5cbf922d1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 090/118] fix: a SCTP acknowledgment with many gaps did not fit
 a datagram

---
 src/sctp/sctp_session.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 66b680d..73b9f59 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -795,7 +795,7 @@ void SctpSession::stopT3Rtx()
 
 void SctpSession::sendSack()
 {
-    // Build gap ack blocks from out-of-order TSNs.
+    // Build gap ack blocks from out-of-order TSNs, as many as fit a packet.
     // Offsets are relative to mPeerCumulativeTsn; sort by offset to handle
     // TSN wraparound correctly (uint32_t distance, not raw value order).
     struct GapBlock {
@@ -832,6 +832,11 @@ void SctpSession::sendSack()
         }
     }
 
+    constexpr size_t kMaxGapBlocks = 250;
+    if (gapBlocks.size() > kMaxGapBlocks) {
+        gapBlocks.resize(kMaxGapBlocks);
+    }
+
     ByteBuffer body;
     ByteWriter w(body);
     w.writeU32(mPeerCumulativeTsn);
-- 
2.43.0


From 188042e13b8487801f87530efe19974f03374f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 091/118] fix: a SCTP heartbeat was not answered

---
 src/sctp/sctp_session.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 73b9f59..3044843 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -429,6 +429,14 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkReconfig:
             onReceiveReconfig(chunk);
             break;
+        case kChunkHeartbeat:
+            // RFC 4960 §8.3: goes back as it is
+            if (mState == State::CookieEchoed || mState == State::Established) {
+                SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
+                builder.addChunk(kChunkHeartbeatAck, 0, chunk.data, chunk.size);
+                mListener->onSctpSendPacket(builder.build());
+            }
+            break;
         case kChunkInit:
             onReceiveInit(chunk);
             break;
-- 
2.43.0


From 9b622dacb0064bc56677418f73a94759e395b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 092/118] fix: a data channel message was dropped when another
 channel with the same label was not open yet

---
 src/sctp/sctp_session.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 3044843..9d1f5a0 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -108,9 +108,10 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    auto it = std::find_if(
-        mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
-    if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+    auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
+        return ch.label == message.label && ch.state == DataChannelState::kOpen;
+    });
+    if (it == mDataChannels.end()) {
         return;
     }
 
-- 
2.43.0


From 34594c31b0d9f3bf1353419adfcd69c9625562b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 093/118] fix: a SCTP FORWARD TSN was ignored though support
 for it is announced, and what comes after waited forever

---
 src/sctp/data_channel_receive_buffer.cpp |  33 +++++++
 src/sctp/data_channel_receive_buffer.h   |  10 ++
 src/sctp/sctp_session.cpp                | 112 ++++++++++++++++++++---
 src/sctp/sctp_session.h                  |   3 +
 4 files changed, 143 insertions(+), 15 deletions(-)

diff --git a/src/sctp/data_channel_receive_buffer.cpp b/src/sctp/data_channel_receive_buffer.cpp
index 2c7cc98..bd597c9 100644
--- a/src/sctp/data_channel_receive_buffer.cpp
+++ b/src/sctp/data_channel_receive_buffer.cpp
@@ -1,6 +1,8 @@
 #include "data_channel_receive_buffer.h"
 #include "sctp_defs.h"
 
+#include <iterator>
+
 namespace srtc::sctp
 {
 
@@ -55,6 +57,13 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
         return out;
     }
 
+    drain(out);
+
+    return out;
+}
+
+void DataChannelReceiveBuffer::drain(std::list<Message>& out)
+{
     // Ordered: drain consecutive complete messages from mNextSsn.
     while (true) {
         auto it = mPending.find(mNextSsn);
@@ -65,6 +74,30 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
         mPending.erase(it);
         mNextSsn++;
     }
+}
+
+void DataChannelReceiveBuffer::dropIncomplete()
+{
+    for (auto* map : { &mPending, &mPendingUnordered }) {
+        for (auto it = map->begin(); it != map->end();) {
+            it = it->second.complete ? std::next(it) : map->erase(it);
+        }
+    }
+}
+
+std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::skip(uint16_t ssn)
+{
+    std::list<Message> out;
+
+    while (static_cast<int16_t>(ssn - mNextSsn) >= 0) {
+        drain(out);
+        if (static_cast<int16_t>(ssn - mNextSsn) >= 0) {
+            mPending.erase(mNextSsn);
+            mNextSsn++;
+        }
+    }
+
+    drain(out);
 
     return out;
 }
diff --git a/src/sctp/data_channel_receive_buffer.h b/src/sctp/data_channel_receive_buffer.h
index ecbdc8a..6589f24 100644
--- a/src/sctp/data_channel_receive_buffer.h
+++ b/src/sctp/data_channel_receive_buffer.h
@@ -29,7 +29,17 @@ public:
     std::list<Message> receive(
         uint16_t ssn, uint8_t flags, bool unordered, uint32_t ppid, const uint8_t* data, size_t size);
 
+    // The peer has given up on data it sent, so messages which wait for the
+    // rest of theirs can't be completed.
+    void dropIncomplete();
+
+    // The peer has given up on messages up to and including 'ssn'. Returns all
+    // ordered messages now deliverable.
+    std::list<Message> skip(uint16_t ssn);
+
 private:
+    void drain(std::list<Message>& out);
+
     struct PendingMessage {
         uint32_t ppid = 0;
         std::vector<uint8_t> payload;
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9d1f5a0..72b0e93 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -430,6 +430,9 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkReconfig:
             onReceiveReconfig(chunk);
             break;
+        case kChunkForwardTsn:
+            onReceiveForwardTsn(chunk);
+            break;
         case kChunkHeartbeat:
             // RFC 4960 §8.3: goes back as it is
             if (mState == State::CookieEchoed || mState == State::Established) {
@@ -552,7 +555,17 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
     std::list<ReceivedChunk> chunkList;
     chunkList.push_back({ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
     mPeerCumulativeTsn = peerTSN;
+    takeConsecutiveChunks(chunkList);
+
+    sendSack();
 
+    for (const auto& item : chunkList) {
+        processDataChunk(item.flags, item.body.data(), item.body.size());
+    }
+}
+
+void SctpSession::takeConsecutiveChunks(std::list<ReceivedChunk>& chunkList)
+{
     while (true) {
         auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
         if (it == mPeerOutOfOrderChunks.end())
@@ -561,6 +574,71 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         chunkList.push_back(std::move(it->second));
         mPeerOutOfOrderChunks.erase(it);
     }
+}
+
+void SctpSession::onReceiveForwardTsn(const SctpPacket::Chunk& chunk)
+{
+    if (mState != State::CookieEchoed && mState != State::Established)
+        return;
+
+    // FORWARD TSN body: newCumulativeTsn(4) and for each stream, streamId(2) + SSN(2)
+    if (chunk.size < 4)
+        return;
+
+    ByteReader r(chunk.data, chunk.size);
+    const auto newCumulativeTsn = r.readU32();
+
+    // RFC 3758 §3.6: an old one
+    if (static_cast<int32_t>(newCumulativeTsn - mPeerCumulativeTsn) <= 0) {
+        sendSack();
+        return;
+    }
+
+    // The peer has given up on what is missing, there may be messages in between
+    while (mPeerCumulativeTsn != newCumulativeTsn) {
+        auto next = mPeerOutOfOrderChunks.end();
+        for (auto it = mPeerOutOfOrderChunks.begin(); it != mPeerOutOfOrderChunks.end(); ++it) {
+            if (next == mPeerOutOfOrderChunks.end() ||
+                it->first - mPeerCumulativeTsn < next->first - mPeerCumulativeTsn) {
+                next = it;
+            }
+        }
+
+        for (auto& channel : mDataChannels) {
+            channel.receiveBuffer.dropIncomplete();
+        }
+
+        if (next == mPeerOutOfOrderChunks.end() ||
+            next->first - mPeerCumulativeTsn > newCumulativeTsn - mPeerCumulativeTsn) {
+            mPeerCumulativeTsn = newCumulativeTsn;
+            break;
+        }
+
+        while (next != mPeerOutOfOrderChunks.end()) {
+            mPeerCumulativeTsn = next->first;
+            const auto item = std::move(next->second);
+            mPeerOutOfOrderChunks.erase(next);
+            processDataChunk(item.flags, item.body.data(), item.body.size());
+            next = mPeerOutOfOrderChunks.end();
+            if (mPeerCumulativeTsn != newCumulativeTsn) {
+                next = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+            }
+        }
+    }
+
+    while (r.remaining() >= 4) {
+        const auto streamId = r.readU16();
+        const auto ssn = r.readU16();
+        for (auto& channel : mDataChannels) {
+            if (channel.streamId == streamId) {
+                deliver(channel, channel.receiveBuffer.skip(ssn));
+                break;
+            }
+        }
+    }
+
+    std::list<ReceivedChunk> chunkList;
+    takeConsecutiveChunks(chunkList);
 
     sendSack();
 
@@ -569,6 +647,23 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
     }
 }
 
+void SctpSession::deliver(const DataChannel& channel, const std::list<DataChannelReceiveBuffer::Message>& messages)
+{
+    for (const auto& msg : messages) {
+        if (msg.ppid == kPpidStringEmpty) {
+            // RFC 8831 §6.6: there is a single byte to be ignored
+            mListener->onSctpDataChannelText(channel.label, std::string());
+        } else if (msg.ppid == kPpidBinaryEmpty) {
+            mListener->onSctpDataChannelBinary(channel.label, ByteBuffer());
+        } else if (msg.ppid == kPpidString) {
+            const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
+            mListener->onSctpDataChannelText(channel.label, text);
+        } else {
+            mListener->onSctpDataChannelBinary(channel.label, msg.data);
+        }
+    }
+}
+
 void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t size)
 {
     ByteReader r(data, size);
@@ -584,21 +679,8 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
             }
             // RFC 8832 §6: messages of an unordered channel are ordered until it's known to be open
             const auto isUnordered = (flags & kDataFlagUnordered) != 0;
-            const auto messages =
-                channel.receiveBuffer.receive(ssn, flags, isUnordered, ppid, r.current(), r.remaining());
-            for (const auto& msg : messages) {
-                if (msg.ppid == kPpidStringEmpty) {
-                    // RFC 8831 §6.6: there is a single byte to be ignored
-                    mListener->onSctpDataChannelText(channel.label, std::string());
-                } else if (msg.ppid == kPpidBinaryEmpty) {
-                    mListener->onSctpDataChannelBinary(channel.label, ByteBuffer());
-                } else if (msg.ppid == kPpidString) {
-                    const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
-                    mListener->onSctpDataChannelText(channel.label, text);
-                } else {
-                    mListener->onSctpDataChannelBinary(channel.label, msg.data);
-                }
-            }
+            deliver(channel,
+                    channel.receiveBuffer.receive(ssn, flags, isUnordered, ppid, r.current(), r.remaining()));
             break;
         }
         return;
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 64b6ebe..5092df7 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -126,6 +126,9 @@ private:
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
     void processDataChunk(uint8_t flags, const uint8_t* data, size_t size);
+    void takeConsecutiveChunks(std::list<ReceivedChunk>& chunkList);
+    void onReceiveForwardTsn(const SctpPacket::Chunk& chunk);
+    void deliver(const DataChannel& channel, const std::list<DataChannelReceiveBuffer::Message>& messages);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From 981f260f343b02aba85b85def55a4059b42f9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 094/118] fix: a SCTP stream reset closed the data channel
 before its last messages arrived, and again when repeated

---
 src/sctp/sctp_defs.h      |  3 ++-
 src/sctp/sctp_session.cpp | 26 ++++++++++++++++++++++++--
 src/sctp/sctp_session.h   |  2 ++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..6e2de13 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -59,7 +59,8 @@ constexpr uint16_t kParamOutgoingSsnReset = 0x000D;
 constexpr uint16_t kParamReconfigResponse = 0x0010;
 
 // RE-CONFIG response result codes (RFC 6525 §4.4)
-constexpr uint32_t kReconfigResultSuccess = 0x00000000;
+constexpr uint32_t kReconfigResultSuccess    = 0x00000000;
+constexpr uint32_t kReconfigResultInProgress = 0x00000006;
 
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 72b0e93..9cfd94f 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -730,6 +730,9 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
 
 void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
 {
+    if (mState != State::CookieEchoed && mState != State::Established)
+        return;
+
     // RECONFIG chunk body is a sequence of parameters starting at offset 0
     for (const auto& param : chunk.parseParams(0)) {
         if (param.type != kParamOutgoingSsnReset || param.size < 12)
@@ -739,7 +742,22 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         //   requestSeqNum(4) + responseSeqNum(4) + lastTsn(4) + streamIds(2 each)
         ByteReader r(param.data, param.size);
         const auto requestSeqNum = r.readU32();
-        r.skip(8); // responseSeqNum, lastTsn
+        r.skip(4); // responseSeqNum
+        const auto lastTsn = r.readU32();
+
+        uint32_t result = kReconfigResultSuccess;
+        // RFC 6525 §5.2.2: what the peer has sent before is still to arrive
+        if (static_cast<int32_t>(lastTsn - mPeerCumulativeTsn) > 0) {
+            result = kReconfigResultInProgress;
+        }
+        // RFC 6525 §5.2.1: our response may have been lost, the streams can be in use again
+        const auto isHandled =
+            mPeerReconfigSeqNum.has_value() && static_cast<int32_t>(requestSeqNum - *mPeerReconfigSeqNum) <= 0;
+        if (isHandled) {
+            result = kReconfigResultSuccess;
+        } else if (result == kReconfigResultSuccess) {
+            mPeerReconfigSeqNum = requestSeqNum;
+        }
 
         const auto numStreams = r.remaining() / 2;
         std::vector<uint16_t> streamIds;
@@ -748,6 +766,10 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
             streamIds.push_back(r.readU16());
         }
 
+        if (isHandled || result != kReconfigResultSuccess) {
+            streamIds.clear();
+        }
+
         // Close matching channels and notify listener
         for (const auto streamId : streamIds) {
             for (auto it = mDataChannels.begin(); it != mDataChannels.end(); ++it) {
@@ -769,7 +791,7 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         pw.writeU16(kParamReconfigResponse);
         pw.writeU16(12); // type(2) + length(2) + seqNum(4) + result(4)
         pw.writeU32(requestSeqNum);
-        pw.writeU32(kReconfigResultSuccess);
+        pw.writeU32(result);
 
         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
         builder.addChunk(kChunkReconfig, 0, responseParam);
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 5092df7..728aa6b 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -11,6 +11,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <optional>
 #include <string>
 #include <vector>
 
@@ -113,6 +114,7 @@ private:
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::map<uint32_t, ReceivedChunk> mPeerOutOfOrderChunks; // received but not yet consecutive, by TSN
+    std::optional<uint32_t> mPeerReconfigSeqNum;             // of the last stream reset
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
-- 
2.43.0


From 094533954f5217017d71f5ad9d6fb1bc4a71822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 095/118] fix: a data channel opened by the peer on a stream in
 use was announced twice, and never got any messages

---
 src/sctp/sctp_session.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9cfd94f..9a76cef 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -714,6 +714,14 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
         }
         const auto label = r.readString(labelLen);
 
+        // RFC 8832 §6: a stream has one channel
+        if (std::any_of(mDataChannels.begin(), mDataChannels.end(), [streamId](const DataChannel& channel) {
+                return channel.streamId == streamId;
+            })) {
+            LOG(SRTC_LOG_W, "DCEP OPEN for a stream %u which is in use, discarding", streamId);
+            return;
+        }
+
         auto& channel = mDataChannels.emplace_back(label, streamId, unordered);
         channel.state = DataChannelState::kOpen;
         channel.receiveBuffer.consumeSsn(ssn);
-- 
2.43.0


From 1ee74b3e3aceb1ce73098b6750ece2c7fc070617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 096/118] fix: an entry of a SCTP checksum table was wrong, so
 many packets were refused by peers and theirs by us

---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 14d99aabe2786995a13100bd4ec975c1b1899cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 097/118] fix: a data channel which the peer opened before its
 SCTP COOKIE ACK arrived was opened again, and lost what was sent on it

---
 src/sctp/sctp_session.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9a76cef..8f4ab4c 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -521,8 +521,8 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
-    // RFC 4960 §6: there is no association before
-    if (mState != State::CookieEchoed && mState != State::Established)
+    // There is no association before, and nothing can be sent on a channel which this opens
+    if (mState != State::Established)
         return;
 
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
@@ -578,7 +578,7 @@ void SctpSession::takeConsecutiveChunks(std::list<ReceivedChunk>& chunkList)
 
 void SctpSession::onReceiveForwardTsn(const SctpPacket::Chunk& chunk)
 {
-    if (mState != State::CookieEchoed && mState != State::Established)
+    if (mState != State::Established)
         return;
 
     // FORWARD TSN body: newCumulativeTsn(4) and for each stream, streamId(2) + SSN(2)
@@ -738,7 +738,7 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
 
 void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
 {
-    if (mState != State::CookieEchoed && mState != State::Established)
+    if (mState != State::Established)
         return;
 
     // RECONFIG chunk body is a sequence of parameters starting at offset 0
-- 
2.43.0


From f4748967f84d6dbfe48f461746d739474fa0f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 098/118] fix: only one DTLS record was read from a datagram,
 and data which came with the end of the handshake waited for more

---
 include/srtc/peer_candidate.h |  1 +
 src/peer_candidate.cpp        | 32 +++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index 31a1288..048e475 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -111,6 +111,7 @@ private:
 
     void onReceivedStunMessage(const Socket::ReceivedData& data);
     void onReceivedDtlsMessage(ByteBuffer&& buf);
+    void readDtlsData();
     void onReceivedRtcMessage(ByteBuffer&& buf);
 
     void onReceivedControlPacket(const std::shared_ptr<RtcpPacket>& packet);
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 72892e7..b58a402 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1014,6 +1014,9 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
                         if (mSctpSession) {
                             mSctpSession->start();
                         }
+
+                        // There can be data which came together with the end of the handshake
+                        readDtlsData();
                     } else {
                         // Error, failed to initialize SRTP
                         LOG(SRTC_LOG_E,
@@ -1048,6 +1051,15 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
             freeDTLS();
         }
     } else if (mDtlsState == DtlsState::Completed) {
+        readDtlsData();
+    }
+}
+
+void PeerCandidate::readDtlsData()
+{
+    // A datagram can have several records
+    // https://datatracker.ietf.org/doc/html/rfc6347#section-4.1.1
+    while (true) {
         uint8_t tmp[4096];
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
 
@@ -1055,18 +1067,20 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
             if (mSctpSession) {
                 mSctpSession->onReceiveData({ tmp, static_cast<size_t>(r) });
             }
+            continue;
+        }
+
+        if ((SSL_get_shutdown(mDtlsSsl) & SSL_RECEIVED_SHUTDOWN) != 0) {
+            LOG(SRTC_LOG_V, "Received DTLS close_notify, peer disconnected gracefully");
+            emitOnDtlsDisconnected(Error::OK);
         } else {
-            if ((SSL_get_shutdown(mDtlsSsl) & SSL_RECEIVED_SHUTDOWN) != 0) {
-                LOG(SRTC_LOG_V, "Received DTLS close_notify, peer disconnected gracefully");
-                emitOnDtlsDisconnected(Error::OK);
-            } else {
-                const auto err = SSL_get_error(mDtlsSsl, r);
-                if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
-                    LOG(SRTC_LOG_V, "DTLS connection lost, ssl error = %d", err);
-                    emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
-                }
+            const auto err = SSL_get_error(mDtlsSsl, r);
+            if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
+                LOG(SRTC_LOG_V, "DTLS connection lost, ssl error = %d", err);
+                emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
             }
         }
+        break;
     }
 }
 
-- 
2.43.0


From 0aadd2d7fe7b496f7e1d3c0b73c536b67d38867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 099/118] fix: a lost DTLS handshake message was not sent again

---
 include/srtc/peer_candidate.h |  3 +++
 src/peer_candidate.cpp        | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index 048e475..a476fd5 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -112,6 +112,8 @@ private:
     void onReceivedStunMessage(const Socket::ReceivedData& data);
     void onReceivedDtlsMessage(ByteBuffer&& buf);
     void readDtlsData();
+    void updateDtlsTimeout();
+    void onDtlsTimeout();
     void onReceivedRtcMessage(ByteBuffer&& buf);
 
     void onReceivedControlPacket(const std::shared_ptr<RtcpPacket>& packet);
@@ -246,6 +248,7 @@ private:
     std::weak_ptr<Task> mTaskConnectionRestoreTimeout;
     std::weak_ptr<Task> mTaskExpireStunRequests;
     std::weak_ptr<Task> mTaskKeepAliveTimeout;
+    std::weak_ptr<Task> mTaskDtlsTimeout;
 
     ScopedScheduler mScheduler;
 
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index b58a402..241cc04 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -805,6 +805,8 @@ void PeerCandidate::run()
                 SSL_set_connect_state(mDtlsSsl);
                 SSL_do_handshake(mDtlsSsl);
             }
+
+            updateDtlsTimeout();
         }
     }
 
@@ -1050,11 +1052,38 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         if (mDtlsState == DtlsState::Failed) {
             freeDTLS();
         }
+
+        updateDtlsTimeout();
     } else if (mDtlsState == DtlsState::Completed) {
         readDtlsData();
     }
 }
 
+void PeerCandidate::updateDtlsTimeout()
+{
+    // https://datatracker.ietf.org/doc/html/rfc6347#section-4.2.4
+    Task::cancelHelper(mTaskDtlsTimeout);
+
+    struct timeval tv = {};
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl && DTLSv1_get_timeout(mDtlsSsl, &tv)) {
+        const auto delay =
+            std::chrono::milliseconds(static_cast<int64_t>(tv.tv_sec) * 1000 + (tv.tv_usec + 999) / 1000);
+
+        mTaskDtlsTimeout = mScheduler.submit(delay, __FILE__, __LINE__, [this] { onDtlsTimeout(); });
+    }
+}
+
+void PeerCandidate::onDtlsTimeout()
+{
+    // Sends the last flight of handshake messages again
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl) {
+        if (DTLSv1_handle_timeout(mDtlsSsl) < 0) {
+            LOG(SRTC_LOG_E, "Error handling the DTLS timeout");
+        }
+        updateDtlsTimeout();
+    }
+}
+
 void PeerCandidate::readDtlsData()
 {
     // A datagram can have several records
-- 
2.43.0


From b73220e9974de328d6fe5aaa0a8e9ede9eefb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 100/118] fix: a connection was reported lost every few seconds
 when there was no media, keep alive requests were never sent

---
 include/srtc/peer_candidate.h |  1 -
 src/peer_candidate.cpp        | 11 +++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index a476fd5..65fcca7 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -237,7 +237,6 @@ private:
     void updateKeepAliveTimeout();
     void onKeepAliveTimeout();
 
-    std::chrono::steady_clock::time_point mLastSendTime;
     std::chrono::steady_clock::time_point mLastReceiveTime;
 
     // Scheduler and tasks
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 241cc04..a05d238 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -247,8 +247,7 @@ PeerCandidate::PeerCandidate(PeerCandidateListener* const listener,
     , mControlRttFilter(0.2f)
     , mSentUseCandidate(false)
     , mIsConnected(false)
-    , mLastSendTime(std::chrono::steady_clock::time_point::min())
-    , mLastReceiveTime(std::chrono::steady_clock::time_point::min())
+    , mLastReceiveTime(std::chrono::steady_clock::time_point{})
     , mScheduler(scheduler)
 #ifdef NDEBUG
 #else
@@ -998,7 +997,7 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
                                                         mSocket,
                                                         mSendRtpHistory,
                                                         mExtensionSourceTWCC,
-                                                        [this]() { mLastSendTime = std::chrono::steady_clock::now(); });
+                                                        []() {});
                         mDtlsState = DtlsState::Completed;
 
                         const auto addr = to_string(mHost.addr);
@@ -1093,6 +1092,8 @@ void PeerCandidate::readDtlsData()
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
 
         if (r > 0) {
+            onReceivedFromRemote();
+
             if (mSctpSession) {
                 mSctpSession->onReceiveData({ tmp, static_cast<size_t>(r) });
             }
@@ -1702,6 +1703,7 @@ void PeerCandidate::onReceivedFromRemote()
     if (!mIsConnected) {
         mIsConnected = true;
         emitOnDtlsConnected();
+        updateKeepAliveTimeout();
     }
 }
 
@@ -1792,8 +1794,9 @@ void PeerCandidate::onKeepAliveTimeout()
 {
     updateKeepAliveTimeout();
 
+    // The connection is considered lost when nothing is received for a while, even if we do send
     const auto now = std::chrono::steady_clock::now();
-    if (now - mLastSendTime < kKeepAliveSendTimeout && now - mLastReceiveTime < kKeepAliveSendTimeout) {
+    if (now - mLastReceiveTime < kKeepAliveSendTimeout) {
         return;
     }
 
-- 
2.43.0


From 4e9f8937953f9058b0c0f2415eb9f7ebfa2fce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 101/118] fix: a lost connection was asked for only once, so it
 was given up when that request was lost too

---
 src/peer_candidate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index a05d238..b31e05b 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -78,6 +78,7 @@ constexpr auto kExpireStunPeriod = std::chrono::milliseconds(1000);
 constexpr auto kExpireStunTimeout = std::chrono::milliseconds(5000);
 constexpr auto kKeepAliveCheckTimeout = std::chrono::milliseconds(1000);
 constexpr auto kKeepAliveSendTimeout = std::chrono::milliseconds(3000);
+constexpr auto kConnectRestorePeriod = std::chrono::milliseconds(500);
 constexpr auto kConnectRepeatPeriod = std::chrono::milliseconds(100);
 constexpr auto kConnectRepeatIncrement = std::chrono::milliseconds(100);
 constexpr auto kMaxRecentEnough = std::chrono::milliseconds(5 * 1000);
@@ -1775,9 +1776,10 @@ void PeerCandidate::sendConnectionRestoreRequest()
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
     addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request) });
 
+    // Well before the connect timeout, this one can be lost
     Task::cancelHelper(mTaskConnectionRestoreTimeout);
     mTaskConnectionRestoreTimeout =
-        mScheduler.submit(kConnectTimeout, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
+        mScheduler.submit(kConnectRestorePeriod, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
 }
 
 void PeerCandidate::updateKeepAliveTimeout()
-- 
2.43.0


From 4f9846be0d41de2cbc6c745f714245e73ca6cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 102/118] fix: an answer with a video codec in an audio
 section, or an audio codec in a video one, aborted the application

---
 src/sdp_answer.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index d8ad949..cb440e3 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -125,6 +125,22 @@ std::string to_lower(const std::string& s)
     return res;
 }
 
+bool is_codec_for_media(srtc::Codec codec, srtc::MediaType mediaType)
+{
+    switch (codec) {
+    case srtc::Codec::VP8:
+    case srtc::Codec::VP9:
+    case srtc::Codec::H264:
+    case srtc::Codec::H265:
+    case srtc::Codec::AV1:
+        return mediaType == srtc::MediaType::Video;
+    case srtc::Codec::Opus:
+        return mediaType == srtc::MediaType::Audio;
+    default:
+        return true;
+    }
+}
+
 std::optional<srtc::Codec> parse_codec(const std::string& name)
 {
     // Not case sensitive
@@ -612,7 +628,8 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
                 const auto posSlash = props[0].find('/');
                 if (posSlash != std::string::npos) {
                     const auto codecString = props[0].substr(0, posSlash);
-                    if (const auto codec = parse_codec(codecString); codec.has_value()) {
+                    if (const auto codec = parse_codec(codecString);
+                        codec.has_value() && is_codec_for_media(codec.value(), mediaState.mediaType.value())) {
                         auto clockRateString = props[0].substr(posSlash + 1);
                         const auto posSlash2 = clockRateString.find('/');
                         if (posSlash2 != std::string::npos) {
-- 
2.43.0


From 9471f1b2a0e7adcd240f373b3ed0f069f4aa5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 103/118] fix: an answer with one number for two header
 extensions aborted the application

---
 src/sdp_answer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index cb440e3..11cf5de 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -611,7 +611,9 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         const auto id = parse_u32(value.substr(0, posSlash));
         const auto isInactive = posSlash != std::string::npos && value.substr(posSlash + 1) == "inactive";
         if (id.has_value() && id > 0u && id <= 255u && !isInactive) {
-            if (!props.empty() && isInMediaSection) {
+            // One number can't be for two extensions
+            if (!props.empty() && isInMediaSection &&
+                mediaState.extensionMap.findById(static_cast<uint8_t>(id.value())).empty()) {
                 mediaState.extensionMap.add(static_cast<uint8_t>(id.value()), props[0]);
             }
         }
-- 
2.43.0


From 0ac41035a17a26915b315484322a0a78fa8805ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 104/118] fix: frames which were still queued when a recording
 ended were lost, or written by a writer which was gone

---
 tools/media_writer.cpp      | 29 ++++++++++++++++++-----------
 tools/media_writer.h        |  3 +++
 tools/media_writer_av1.cpp  |  2 ++
 tools/media_writer_h26x.cpp |  2 ++
 tools/media_writer_ogg.cpp  |  2 ++
 tools/media_writer_vp8.cpp  |  2 ++
 tools/media_writer_vp9.cpp  |  2 ++
 7 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/tools/media_writer.cpp b/tools/media_writer.cpp
index 344fc99..d7c6ef8 100644
--- a/tools/media_writer.cpp
+++ b/tools/media_writer.cpp
@@ -9,6 +9,16 @@ MediaWriter::MediaWriter(const std::string& filename)
 }
 
 MediaWriter::~MediaWriter()
+{
+    stop();
+}
+
+void MediaWriter::start()
+{
+    mThread = std::thread(&MediaWriter::threadFunc, this);
+}
+
+void MediaWriter::stop()
 {
     {
         std::lock_guard lock(mMutex);
@@ -16,12 +26,9 @@ MediaWriter::~MediaWriter()
         mCond.notify_one();
     }
 
-    mThread.join();
-}
-
-void MediaWriter::start()
-{
-    mThread = std::thread(&MediaWriter::threadFunc, this);
+    if (mThread.joinable()) {
+        mThread.join();
+    }
 }
 
 void MediaWriter::send(const std::shared_ptr<srtc::EncodedFrame>& frame)
@@ -69,13 +76,13 @@ void MediaWriter::threadFunc()
             std::unique_lock lock(mMutex);
             mCond.wait(lock, [this] { return mQuit || !mQueue.empty(); });
 
-            if (mQuit) {
+            // Write out everything there is before quitting
+            if (mQueue.empty()) {
                 break;
             }
-            if (!mQueue.empty()) {
-                frame = mQueue.front();
-                mQueue.pop_front();
-            }
+
+            frame = mQueue.front();
+            mQueue.pop_front();
         }
 
         if (frame) {
diff --git a/tools/media_writer.h b/tools/media_writer.h
index c4051d5..1d2d2bb 100644
--- a/tools/media_writer.h
+++ b/tools/media_writer.h
@@ -25,6 +25,9 @@ public:
 	void send(const std::shared_ptr<srtc::EncodedFrame>& frame);
 
 protected:
+    // To be called by destructors of derived classes, while they can still write frames
+    void stop();
+
     void checkExtension(const std::initializer_list<const char*>& expected);
 
 private:
diff --git a/tools/media_writer_av1.cpp b/tools/media_writer_av1.cpp
index c02e2c3..e2bc1ae 100644
--- a/tools/media_writer_av1.cpp
+++ b/tools/media_writer_av1.cpp
@@ -19,6 +19,8 @@ MediaWriterAV1::MediaWriterAV1(const std::string& filename, const std::shared_pt
 
 MediaWriterAV1::~MediaWriterAV1()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
diff --git a/tools/media_writer_h26x.cpp b/tools/media_writer_h26x.cpp
index ab59647..9581e57 100644
--- a/tools/media_writer_h26x.cpp
+++ b/tools/media_writer_h26x.cpp
@@ -14,6 +14,8 @@ MediaWriterH26x::MediaWriterH26x(const std::string& filename, const std::shared_
 
 MediaWriterH26x::~MediaWriterH26x()
 {
+    stop();
+
     if (mFile) {
         fclose(mFile);
         mFile = nullptr;
diff --git a/tools/media_writer_ogg.cpp b/tools/media_writer_ogg.cpp
index d37045f..67f4ace 100644
--- a/tools/media_writer_ogg.cpp
+++ b/tools/media_writer_ogg.cpp
@@ -18,6 +18,8 @@ MediaWriterOgg::MediaWriterOgg(const std::string& filename, const std::shared_pt
 
 MediaWriterOgg::~MediaWriterOgg()
 {
+    stop();
+
     if (mFile) {
         while (ogg_stream_flush(&m_os, &m_og)) {
             fwrite(m_og.header, 1, m_og.header_len, mFile);
diff --git a/tools/media_writer_vp8.cpp b/tools/media_writer_vp8.cpp
index 8c48035..21bbffd 100644
--- a/tools/media_writer_vp8.cpp
+++ b/tools/media_writer_vp8.cpp
@@ -17,6 +17,8 @@ MediaWriterVP8::MediaWriterVP8(const std::string& filename, const std::shared_pt
 
 MediaWriterVP8::~MediaWriterVP8()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
diff --git a/tools/media_writer_vp9.cpp b/tools/media_writer_vp9.cpp
index 659a150..79ed57e 100644
--- a/tools/media_writer_vp9.cpp
+++ b/tools/media_writer_vp9.cpp
@@ -16,6 +16,8 @@ MediaWriterVP9::MediaWriterVP9(const std::string& filename, const std::shared_pt
 
 MediaWriterVP9::~MediaWriterVP9()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
-- 
2.43.0


From 84f54501199629f9db2b92c52f1dbe7e6b9e4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 105/118] fix: frames of some sizes were written to webm files
 with a size which means unknown

---
 tools/media_writer_webm.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/tools/media_writer_webm.cpp b/tools/media_writer_webm.cpp
index 50c2ac7..d53e7e8 100644
--- a/tools/media_writer_webm.cpp
+++ b/tools/media_writer_webm.cpp
@@ -8,20 +8,21 @@ namespace
 // Helper to write variable-length EBML integer to ByteBuffer
 void writeVarIntToBuffer(srtc::ByteWriter& writer, uint64_t value)
 {
+    // All bits set is reserved for unknown size
     int width = 1;
-    if (value > 127)
+    if (value >= 127)
         width = 2;
-    if (value > 16383)
+    if (value >= 16383)
         width = 3;
-    if (value > 2097151)
+    if (value >= 2097151)
         width = 4;
-    if (value > 268435455)
+    if (value >= 268435455)
         width = 5;
-    if (value > 34359738367ULL)
+    if (value >= 34359738367ULL)
         width = 6;
-    if (value > 4398046511103ULL)
+    if (value >= 4398046511103ULL)
         width = 7;
-    if (value > 562949953421311ULL)
+    if (value >= 562949953421311ULL)
         width = 8;
 
     uint8_t first_byte = (1 << (8 - width)) | ((value >> ((width - 1) * 8)) & ((1 << (8 - width)) - 1));
@@ -343,19 +344,20 @@ void MediaWriterWebm::writeVarInt(FILE* file, uint64_t value)
 
 int MediaWriterWebm::getVarIntWidth(uint64_t value)
 {
-    if (value <= 127)
+    // All bits set is reserved for unknown size
+    if (value < 127)
         return 1; // 2^7 - 1
-    if (value <= 16383)
+    if (value < 16383)
         return 2; // 2^14 - 1
-    if (value <= 2097151)
+    if (value < 2097151)
         return 3; // 2^21 - 1
-    if (value <= 268435455)
+    if (value < 268435455)
         return 4; // 2^28 - 1
-    if (value <= 34359738367ULL)
+    if (value < 34359738367ULL)
         return 5; // 2^35 - 1
-    if (value <= 4398046511103ULL)
+    if (value < 4398046511103ULL)
         return 6; // 2^42 - 1
-    if (value <= 562949953421311ULL)
+    if (value < 562949953421311ULL)
         return 7; // 2^49 - 1
     return 8;
 }
-- 
2.43.0


From 3fa25ba37905592379ad9e84ee4e6eec1485207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 106/118] fix: damaged webm files made the reader read past the
 end of the file

---
 tools/media_reader_webm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/media_reader_webm.cpp b/tools/media_reader_webm.cpp
index f27078b..998c654 100644
--- a/tools/media_reader_webm.cpp
+++ b/tools/media_reader_webm.cpp
@@ -37,6 +37,11 @@ void WebmReader::readBlockHeader(uint32_t& id, uint64_t& size)
     // Read the ID
     id = readID();
     size = readVInt();
+
+    if (remaining() < size) {
+        std::cout << "*** A webm block extends past the end of its parent" << std::endl;
+        exit(1);
+    }
 }
 
 void WebmReader::skip(uint64_t size)
-- 
2.43.0


From 4e87bc7caa0d694e38f23c1ae0c832689c0097cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 107/118] fix: webm files with sizes of five to seven bytes or
 numbers of more than four were refused, such as long recordings

---
 tools/media_reader_webm.cpp | 117 +++++++++++++++---------------------
 tools/media_reader_webm.h   |   6 +-
 2 files changed, 50 insertions(+), 73 deletions(-)

diff --git a/tools/media_reader_webm.cpp b/tools/media_reader_webm.cpp
index 998c654..1a0792a 100644
--- a/tools/media_reader_webm.cpp
+++ b/tools/media_reader_webm.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <iostream>
 #include <cstring>
+#include <limits>
 #include <optional>
 
 WebmReader::WebmReader(const uint8_t* data, size_t size)
@@ -54,18 +55,19 @@ void WebmReader::skip(uint64_t size)
     mPos += size;
 }
 
-uint32_t WebmReader::readUInt(uint64_t size)
+uint64_t WebmReader::readUInt(uint64_t size)
 {
-    if (size > 4 || remaining() < size) {
+    if (size > 8 || remaining() < size) {
         std::cout << "*** Attempt to read a uint of invalid size from a webm block" << std::endl;
         exit(1);
     }
 
-    uint8_t b[4] = {};
-    std::memcpy(b + 4 - size, mData + mPos, size);
-    mPos += size;
+    uint64_t value = 0;
+    for (uint64_t i = 0; i < size; i += 1) {
+        value = (value << 8) | mData[mPos++];
+    }
 
-    return (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
+    return value;
 }
 
 std::string WebmReader::readString(uint64_t size)
@@ -139,67 +141,32 @@ uint64_t WebmReader::readVIntImpl(bool remove_marker)
         exit(1);
     }
 
-    uint64_t id_byte_0 = mData[mPos++];
-    if ((id_byte_0 & 0x80) == 0x80) {
-        // Single byte
-        if (remove_marker) {
-            id_byte_0 &= ~0x80;
-        }
-        return id_byte_0;
-    } else if ((id_byte_0 & 0xC0) == 0x40) {
-        // Two byte
-        if (remaining() < 1) {
-            std::cout << "*** Attempt to read a two byte value past end of webm block" << std::endl;
-            exit(1);
-        }
-        if (remove_marker) {
-            id_byte_0 &= ~0xC0;
-        }
-        const auto id_byte_1 = mData[mPos++];
-        return (id_byte_0 << 8) | id_byte_1;
-    } else if ((id_byte_0 & 0xE0) == 0x20) {
-        // Three byte
-        if (remaining() < 2) {
-            std::cout << "*** Attempt to read a three byte value past end of webm block" << std::endl;
-            exit(1);
-        }
-        if (remove_marker) {
-            id_byte_0 &= ~0xE0;
-        }
-        const auto id_byte_1 = mData[mPos++];
-        const auto id_byte_2 = mData[mPos++];
-        return (id_byte_0 << 16) | (id_byte_1 << 8) | id_byte_2;
-    } else if ((id_byte_0 & 0xF0) == 0x10) {
-        // Four byte
-        if (remaining() < 3) {
-            std::cout << "*** Attempt to read a four byte value past end of webm block" << std::endl;
-            exit(1);
-        }
-        if (remove_marker) {
-            id_byte_0 &= ~0xF0;
-        }
-        const auto id_byte_1 = mData[mPos++];
-        const auto id_byte_2 = mData[mPos++];
-        const auto id_byte_3 = mData[mPos++];
-        return (id_byte_0 << 24) | (id_byte_1 << 16) | (id_byte_2 << 8) | id_byte_3;
-    } else if ((id_byte_0 & 0xFF) == 0x01) {
-        // Eight byte
-        if (remaining() < 7) {
-            std::cout << "*** Attempt to read an eight byte value past end of webm block" << std::endl;
-            exit(1);
-        }
-        if (remove_marker) {
-            id_byte_0 &= ~0xFF;
-        }
-        uint64_t value = id_byte_0;
-        for (size_t i = 0; i < 7; i += 1) {
-            value = (value << 8) | mData[mPos++];
-        }
-        return value;
-    } else {
+    const auto first = mData[mPos++];
+
+    // The number of leading zero bits is how many more bytes there are
+    size_t extra = 0;
+    while (extra < 8 && (first & (0x80 >> extra)) == 0) {
+        extra += 1;
+    }
+
+    if (extra == 8) {
         std::cout << "*** Invalid ID encoding found" << std::endl;
         exit(1);
     }
+    if (remaining() < extra) {
+        std::cout << "*** Attempt to read a variable length value past end of webm block" << std::endl;
+        exit(1);
+    }
+
+    uint64_t value = first;
+    if (remove_marker) {
+        value &= ~(0x80 >> extra);
+    }
+    for (size_t i = 0; i < extra; i += 1) {
+        value = (value << 8) | mData[mPos++];
+    }
+
+    return value;
 }
 
 //////////
@@ -362,7 +329,12 @@ void WebmLoader::parseSegmentInformationElement(const uint8_t* data, uint64_t si
         info_reader.readBlockHeader(info_item_id, info_item_size);
 
         if (info_item_id == kID_TimecodeScale) {
-            mTimecodeScaleNS = info_reader.readUInt(info_item_size);
+            const auto timecode_scale = info_reader.readUInt(info_item_size);
+            if (timecode_scale == 0 || timecode_scale > std::numeric_limits<uint32_t>::max()) {
+                std::cout << "*** Invalid timecode scale in a webm file" << std::endl;
+                exit(1);
+            }
+            mTimecodeScaleNS = static_cast<uint32_t>(timecode_scale);
         } else {
             info_reader.skip(info_item_size);
         }
@@ -378,8 +350,8 @@ void WebmLoader::parseTracksElement(const uint8_t* data, uint64_t size)
         tracks_reader.readBlockHeader(tracks_item_id, tracks_item_size);
 
         if (tracks_item_id == kID_TrackEntry) {
-            std::optional<uint32_t> track_number;
-            std::optional<uint32_t> track_type;
+            std::optional<uint64_t> track_number;
+            std::optional<uint64_t> track_type;
             std::string track_codec_id;
 
             WebmReader track_entry_reader(tracks_reader.curr(), tracks_item_size);
@@ -420,7 +392,7 @@ void WebmLoader::parseTracksElement(const uint8_t* data, uint64_t size)
 
 void WebmLoader::parseClusterElement(const uint8_t* data, uint64_t size)
 {
-    uint32_t timecode = 0;
+    uint64_t timecode = 0;
 
     WebmReader cluster_reader(data, size);
     while (cluster_reader.remaining() > 0) {
@@ -439,11 +411,11 @@ void WebmLoader::parseClusterElement(const uint8_t* data, uint64_t size)
     }
 }
 
-void WebmLoader::parseSimpleBlock(const uint8_t* data, uint64_t size, uint32_t cluster_timecode)
+void WebmLoader::parseSimpleBlock(const uint8_t* data, uint64_t size, uint64_t cluster_timecode)
 {
     WebmReader block_reader(data, size);
 
-    const auto track_number = block_reader.readVInt32();
+    const auto track_number = block_reader.readVInt64();
     if (track_number != mTrackNumberVideo) {
         return;
     }
@@ -451,6 +423,11 @@ void WebmLoader::parseSimpleBlock(const uint8_t* data, uint64_t size, uint32_t c
     const auto frame_offset = block_reader.readFixedInt16();
     const auto frame_flags = block_reader.readFixedUInt8();
 
+    if (cluster_timecode > static_cast<uint64_t>(std::numeric_limits<int64_t>::max() / mTimecodeScaleNS) - 0x8000u) {
+        std::cout << "*** Invalid timecode in a webm file" << std::endl;
+        exit(1);
+    }
+
     const auto frame_data = block_reader.curr();
     const auto frame_size = block_reader.remaining();
 
diff --git a/tools/media_reader_webm.h b/tools/media_reader_webm.h
index 017af7f..5a52797 100644
--- a/tools/media_reader_webm.h
+++ b/tools/media_reader_webm.h
@@ -17,7 +17,7 @@ public:
     void readBlockHeader(uint32_t& id, uint64_t& size);
     void skip(uint64_t size);
 
-    [[nodiscard]] uint32_t readUInt(uint64_t size);
+    [[nodiscard]] uint64_t readUInt(uint64_t size);
     [[nodiscard]] std::string readString(uint64_t size);
 
     [[nodiscard]] uint32_t readVInt32();
@@ -60,7 +60,7 @@ private:
 
     uint32_t mTimecodeScaleNS;
 
-    uint32_t mTrackNumberVideo;
+    uint64_t mTrackNumberVideo;
 
     uint32_t mAllFrameCount;
     uint32_t mKeyFrameCount;
@@ -68,5 +68,5 @@ private:
     void parseSegmentInformationElement(const uint8_t* data, uint64_t size);
     void parseTracksElement(const uint8_t* data, uint64_t size);
     void parseClusterElement(const uint8_t* data, uint64_t size);
-    void parseSimpleBlock(const uint8_t* data, uint64_t size, uint32_t cluster_timecode);
+    void parseSimpleBlock(const uint8_t* data, uint64_t size, uint64_t cluster_timecode);
 };
-- 
2.43.0


From 4c5cb5add352b215ad5ff4c1291f68f80459ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 108/118] fix: frames of h264 and h265 files were read with the
 parameters of the next frame, or none, or information for the next frame

---
 tools/media_reader_h264.cpp | 53 ++++++++++++--------------
 tools/media_reader_h265.cpp | 76 ++++++++++++++++++++++---------------
 2 files changed, 69 insertions(+), 60 deletions(-)

diff --git a/tools/media_reader_h264.cpp b/tools/media_reader_h264.cpp
index d7fb396..8cbe479 100644
--- a/tools/media_reader_h264.cpp
+++ b/tools/media_reader_h264.cpp
@@ -27,7 +27,24 @@ LoadedMedia MediaReaderH264::loadMedia(bool print_info) const
 
     srtc::ByteBuffer sps, pps;
     srtc::ByteBuffer frame;
-    uint8_t frame_nalu_type = {};
+    bool is_key_frame = false;
+
+    const auto finish_frame = [&]() {
+        if (!frame.empty()) {
+            LoadedFrame loaded_frame = {};
+            loaded_frame.pts_usec = pts_usec;
+            pts_usec += 1000 * 40; // 25 fps
+
+            if (is_key_frame) {
+                loaded_frame.csd.push_back(sps.copy());
+                loaded_frame.csd.push_back(pps.copy());
+            }
+
+            loaded_frame.frame = std::move(frame);
+            loaded_media.frame_list.push_back(std::move(loaded_frame));
+            frame.clear();
+        }
+    };
 
     for (srtc::h264::NaluParser parser(data); parser; parser.next()) {
         const auto nalu_type = parser.currType();
@@ -35,48 +52,26 @@ LoadedMedia MediaReaderH264::loadMedia(bool print_info) const
         default:
             break;
         case srtc::h264::NaluType::SPS:
+            // The frame before these does not use them
+            finish_frame();
             sps.assign(parser.currNalu(), parser.currNaluSize());
             break;
         case srtc::h264::NaluType::PPS:
+            finish_frame();
             pps.assign(parser.currNalu(), parser.currNaluSize());
             break;
         case srtc::h264::NaluType::KeyFrame:
         case srtc::h264::NaluType::NonKeyFrame:
             if (srtc::h264::isFrameStart(parser.currData(), parser.currDataSize())) {
-                if (!frame.empty()) {
-                    LoadedFrame loaded_frame = {};
-                    loaded_frame.pts_usec = pts_usec;
-                    pts_usec += 1000 * 40; // 25 fps
-
-                    if (frame_nalu_type == srtc::h264::NaluType::KeyFrame) {
-                        loaded_frame.csd.push_back(sps.copy());
-                        loaded_frame.csd.push_back(pps.copy());
-                    }
-
-                    loaded_frame.frame = std::move(frame);
-                    loaded_media.frame_list.push_back(std::move(loaded_frame));
-                    frame.clear();
-                }
+                finish_frame();
             }
-            frame_nalu_type = parser.currType();
+            is_key_frame = nalu_type == srtc::h264::NaluType::KeyFrame;
             frame.append(parser.currNalu(), parser.currNaluSize());
             break;
         }
     }
 
-    if (!frame.empty()) {
-        LoadedFrame loaded_frame = {};
-        loaded_frame.pts_usec = pts_usec;
-
-        if (frame_nalu_type == srtc::h264::NaluType::KeyFrame) {
-            loaded_frame.csd.push_back(sps.copy());
-            loaded_frame.csd.push_back(pps.copy());
-        }
-
-        loaded_frame.frame = std::move(frame);
-        loaded_media.frame_list.push_back(std::move(loaded_frame));
-        frame.clear();
-    }
+    finish_frame();
 
     return std::move(loaded_media);
 }
diff --git a/tools/media_reader_h265.cpp b/tools/media_reader_h265.cpp
index fcf24c4..58623b4 100644
--- a/tools/media_reader_h265.cpp
+++ b/tools/media_reader_h265.cpp
@@ -4,6 +4,14 @@
 #include <iomanip>
 #include <iostream>
 
+namespace
+{
+
+constexpr uint8_t kAccessUnitDelimiter = 35;
+constexpr uint8_t kPrefixSEI = 39;
+
+} // namespace
+
 MediaReaderH265::MediaReaderH265(const std::string& filename)
     : MediaReader(filename)
 {
@@ -26,58 +34,64 @@ LoadedMedia MediaReaderH265::loadMedia(bool print_info) const
 
     srtc::ByteBuffer vps, sps, pps;
     srtc::ByteBuffer frame;
-    uint8_t frame_nalu_type = {};
+    bool has_slices = false;
+    bool is_key_frame = false;
+
+    const auto finish_frame = [&]() {
+        if (has_slices) {
+            LoadedFrame loaded_frame = {};
+            loaded_frame.pts_usec = pts_usec;
+            pts_usec += 1000 * 40; // 25 fps
+
+            if (is_key_frame) {
+                loaded_frame.csd.push_back(vps.copy());
+                loaded_frame.csd.push_back(sps.copy());
+                loaded_frame.csd.push_back(pps.copy());
+            }
+
+            loaded_frame.frame = std::move(frame);
+            loaded_media.frame_list.push_back(std::move(loaded_frame));
+            frame.clear();
+            has_slices = false;
+        }
+    };
 
     for (srtc::h265::NaluParser parser(data); parser; parser.next()) {
         const auto nalu_type = parser.currType();
         switch (nalu_type) {
         case srtc::h265::NaluType::VPS:
+            // The frame before these does not use them
+            finish_frame();
             vps.assign(parser.currNalu(), parser.currNaluSize());
             break;
         case srtc::h265::NaluType::SPS:
+            finish_frame();
             sps.assign(parser.currNalu(), parser.currNaluSize());
             break;
         case srtc::h265::NaluType::PPS:
+            finish_frame();
             pps.assign(parser.currNalu(), parser.currNaluSize());
             break;
+        case kAccessUnitDelimiter:
+        case kPrefixSEI:
+            // These are before the frame which they are for
+            finish_frame();
+            frame.append(parser.currNalu(), parser.currNaluSize());
+            break;
         default:
             if (srtc::h265::isFrameStart(parser.currData(), parser.currDataSize())) {
-                if (!frame.empty()) {
-                    LoadedFrame loaded_frame = {};
-                    loaded_frame.pts_usec = pts_usec;
-                    pts_usec += 1000 * 40; // 25 fps
-
-                    if (srtc::h265::isKeyFrameNalu(frame_nalu_type)) {
-                        loaded_frame.csd.push_back(vps.copy());
-                        loaded_frame.csd.push_back(sps.copy());
-                        loaded_frame.csd.push_back(pps.copy());
-                    }
-
-                    loaded_frame.frame = std::move(frame);
-                    loaded_media.frame_list.push_back(std::move(loaded_frame));
-                    frame.clear();
-                }
+                finish_frame();
+            }
+            if (srtc::h265::isSliceNalu(nalu_type)) {
+                has_slices = true;
+                is_key_frame = srtc::h265::isKeyFrameNalu(nalu_type);
             }
-            frame_nalu_type = parser.currType();
             frame.append(parser.currNalu(), parser.currNaluSize());
             break;
         }
     }
 
-    if (!frame.empty()) {
-        LoadedFrame loaded_frame = {};
-        loaded_frame.pts_usec = pts_usec;
-
-        if (srtc::h265::isKeyFrameNalu(frame_nalu_type)) {
-            loaded_frame.csd.push_back(vps.copy());
-            loaded_frame.csd.push_back(sps.copy());
-            loaded_frame.csd.push_back(pps.copy());
-        }
-
-        loaded_frame.frame = std::move(frame);
-        loaded_media.frame_list.push_back(std::move(loaded_frame));
-        frame.clear();
-    }
+    finish_frame();
 
     return std::move(loaded_media);
 }
-- 
2.43.0


From 2403f16d69134341f99c639a3f691ff52c383419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 109/118] fix: ogg files had no comment header and wrong
 positions, so they did not play, and without format parameters the writer
 crashed

---
 tools/media_writer_ogg.cpp | 64 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/tools/media_writer_ogg.cpp b/tools/media_writer_ogg.cpp
index 67f4ace..07527bb 100644
--- a/tools/media_writer_ogg.cpp
+++ b/tools/media_writer_ogg.cpp
@@ -1,5 +1,42 @@
 #include "media_writer_ogg.h"
 
+namespace
+{
+
+// https://datatracker.ietf.org/doc/html/rfc6716#section-3.1
+uint32_t getOpusSampleCount(const srtc::ByteBuffer& packet)
+{
+    if (packet.empty()) {
+        return 0;
+    }
+
+    const auto toc = packet.data()[0];
+    const auto config = toc >> 3;
+
+    // Always at 48 kHz
+    uint32_t frame_size;
+    if (config < 12) {
+        static const uint32_t kSilkFrameSize[] = { 480, 960, 1920, 2880 };
+        frame_size = kSilkFrameSize[config & 0x03];
+    } else if (config < 16) {
+        frame_size = (config & 0x01) != 0 ? 960 : 480;
+    } else {
+        frame_size = 120u << (config & 0x03);
+    }
+
+    switch (toc & 0x03) {
+    case 0:
+        return frame_size;
+    case 1:
+    case 2:
+        return frame_size * 2;
+    default:
+        return packet.size() > 1 ? frame_size * (packet.data()[1] & 0x3F) : 0;
+    }
+}
+
+} // namespace
+
 MediaWriterOgg::MediaWriterOgg(const std::string& filename, const std::shared_ptr<srtc::Track>& track)
     : MediaWriter(filename)
     , mTrack(track)
@@ -55,7 +92,7 @@ void MediaWriterOgg::write(const std::shared_ptr<srtc::EncodedFrame>& frame)
         std::printf("OGG: Opened output file %s\n", mFilename.c_str());
 
         // Write the header
-        const auto channels = static_cast<uint8_t>(options->stereo ? 2 : 1);
+        const auto channels = static_cast<uint8_t>(options && options->stereo ? 2 : 1);
 
         ogg_stream_init(&m_os, rand());
 
@@ -96,11 +133,33 @@ void MediaWriterOgg::write(const std::shared_ptr<srtc::EncodedFrame>& frame)
             fwrite(m_og.body, 1, m_og.body_len, mFile);
         }
 
+        // The second header is required too, and has its own page
+        unsigned char tags_header[20] = {
+            'O', 'p', 'u', 's', 'T', 'a', 'g', 's', // "OpusTags"
+            4,   0,   0,   0,   's', 'r', 't', 'c', // vendor
+            0,   0,   0,   0                        // no comments
+        };
+
+        m_op.packet = tags_header;
+        m_op.bytes = sizeof(tags_header);
+        m_op.b_o_s = 0;
+        m_op.packetno = 1;
+
+        ogg_stream_packetin(&m_os, &m_op);
+
+        while (ogg_stream_flush(&m_os, &m_og)) {
+            fwrite(m_og.header, 1, m_og.header_len, mFile);
+            fwrite(m_og.body, 1, m_og.body_len, mFile);
+        }
+
         fflush(mFile);
 
-        m_packetno = 1;
+        m_packetno = 2;
     }
 
+    // The position is where the packet ends, in samples
+    m_granulepos += getOpusSampleCount(frame->data);
+
     // Write the packet
     m_op.packet = frame->data.data();
     m_op.bytes = static_cast<long>(frame->data.size());
@@ -122,6 +181,5 @@ void MediaWriterOgg::write(const std::shared_ptr<srtc::EncodedFrame>& frame)
         m_outByteCount += m_og.body_len;
     }
 
-    m_granulepos += options->minptime * mTrack->getClockRate() / 1000;
     m_packetno += 1;
 }
-- 
2.43.0


From 274a44a2c33a91e7b2a82f6c2fb3c84045f1dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 110/118] fix: the size of the picture in vp9 frames of 10 and
 12 bits was taken from wrong bits

---
 src/codec_vp9.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index bdb4f45..da52d61 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -229,6 +229,9 @@ bool extractDimensions(const uint8_t* data, size_t size, uint16_t& width, uint16
     }
 
     // color_config()
+    if (profile >= 2) {
+        reader.readBit(); // ten_or_twelve_bit
+    }
     const auto color_space = reader.readBits(3);
     if (color_space != 7) {
         reader.readBit(); // color_range
-- 
2.43.0


From 3ecd5af1a17985d2e85d5fa921ad1e92416c960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 111/118] fix: actual bandwidth is never reported when there is
 no congestion control feedback

---
 src/peer_candidate.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index b31e05b..cf55528 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -561,20 +561,18 @@ void PeerCandidate::updatePublishConnectionStats(PublishConnectionStats& stats)
         mExtensionSourceTWCC->updatePublishConnectionStats(stats);
     } else {
         // Fall back to byte-count delta when TWCC is not available
-        if (stats.bandwidth_actual_kbit_per_second < 0) {
-            if (mPrevStatsTime != std::chrono::steady_clock::time_point{}) {
-                const auto deltaMs =
-                    std::chrono::duration_cast<std::chrono::milliseconds>(now - mPrevStatsTime).count();
-                const auto deltaBytes = stats.byte_count - mPrevPublishByteCount;
-                if (deltaMs > 0) {
-                    // bits / milliseconds == kbits / second
-                    stats.bandwidth_actual_kbit_per_second =
-                        static_cast<float>(deltaBytes) * 8.0f / static_cast<float>(deltaMs);
-                }
+        if (mPrevStatsTime != std::chrono::steady_clock::time_point{}) {
+            const auto deltaMs =
+                std::chrono::duration_cast<std::chrono::milliseconds>(now - mPrevStatsTime).count();
+            const auto deltaBytes = stats.byte_count - mPrevPublishByteCount;
+            if (deltaMs > 0) {
+                // bits / milliseconds == kbits / second
+                stats.bandwidth_actual_kbit_per_second =
+                    static_cast<float>(deltaBytes) * 8.0f / static_cast<float>(deltaMs);
             }
-            mPrevPublishByteCount = stats.byte_count;
-            mPrevStatsTime = now;
         }
+        mPrevPublishByteCount = stats.byte_count;
+        mPrevStatsTime = now;
     }
 }
 
-- 
2.43.0


From 579844ff2374c99b142d7bd85f95d1a01d5aaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 112/118] fix: sender reports before the first frame are at
 odds with the frames' timestamps

---
 src/rtp_time_source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index d080294..ae5fbb3 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -21,7 +21,8 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
     if (!mCurrPts.has_value()) {
         mCurrPts = pts;
         mBasePts = pts;
-        mBaseRtp = mCurrRtp;
+        // Sender reports can precede the first frame and their time has to agree with it
+        mBaseRtp = getCurrentTimestamp();
     }
 
     const auto elapsed_usec = pts - mCurrPts.value();
-- 
2.43.0


From 19d419c0b7948e8eb1a5662a7e549e80b287d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 113/118] fix: receiver reports give the last sequence number
 received, even of a retransmission, for the highest one

---
 include/srtc/track_stats.h |  3 ++-
 src/peer_connection.cpp    |  7 +++++--
 src/track_stats.cpp        | 13 +++++++------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index d0bbcfc..c8e936f 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -49,7 +49,8 @@ private:
     size_t mReceivedPackets;
     size_t mReceivedBytes;
     size_t mReceivedPacketsLost;
-	ExtendedValue<uint16_t> mReceivedHighestSeq;
+	ExtendedValue<uint16_t> mReceivedSeq;
+	std::optional<uint64_t> mReceivedHighestSeqEx;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
 
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..d9f19e2 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -971,8 +971,11 @@ void PeerConnection::onCandidateReceivedMediaPacket([[maybe_unused]] PeerCandida
     if (mDirection == Direction::Subscribe) {
         const auto track = packet->getTrack();
 
-        const auto stats = track->getStats();
-        stats->setHighestReceivedSeq(packet->getSequence());
+        if (packet->getSSRC() == track->getSSRC()) {
+            // Retransmissions are numbered on their own
+            const auto stats = track->getStats();
+            stats->setHighestReceivedSeq(packet->getSequence());
+        }
 
         for (const auto& trackEntry : mTrackEntryList) {
             if (trackEntry.track == track) {
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 6e704fc..d5e1b29 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -1,5 +1,7 @@
 #include "srtc/track_stats.h"
 
+#include <algorithm>
+
 namespace srtc
 {
 
@@ -25,6 +27,7 @@ void TrackStats::clear()
     mReceivedPackets = 0;
     mReceivedBytes = 0;
     mReceivedPacketsLost = 0;
+    mReceivedHighestSeqEx.reset();
 }
 
 size_t TrackStats::getSentFrames() const
@@ -79,16 +82,14 @@ size_t TrackStats::getReceivedPacketsLost() const
 
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
-    (void)mReceivedHighestSeq.extend(seq);
+    // Packets can be reordered
+    const auto seqEx = mReceivedSeq.extend(seq);
+    mReceivedHighestSeqEx = std::max(mReceivedHighestSeqEx.value_or(0), seqEx);
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
-    const auto value = mReceivedHighestSeq.get();
-    if (value.has_value()) {
-        return value.value();
-    }
-    return 0;
+    return mReceivedHighestSeqEx.value_or(0);
 }
 
 void TrackStats::incrementReceivedFrames(size_t increment)
-- 
2.43.0


From ee0c6e88e4ef143699d5c90de5a76916d746438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 114/118] fix: the lists of media and tracks are cleared while
 other threads use them

---
 src/peer_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index d9f19e2..164d05e 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -714,8 +714,12 @@ void PeerConnection::networkThreadWorkerFunc()
     mConnectingCandidateList.clear();
     mSelectedCandidate.reset();
 
-    mMediaEntryList.clear();
-    mTrackEntryList.clear();
+    {
+        // Others can be looking at them
+        std::lock_guard lock(mMutex);
+        mMediaEntryList.clear();
+        mTrackEntryList.clear();
+    }
 
     // We are all done
     setConnectionState(ConnectionState::Closed);
-- 
2.43.0


From 74a9f5c52fa88efe5c07a5a05aabbdf573220126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 115/118] fix: the size limit of messages is read without the
 lock under which it is set

---
 src/peer_connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 164d05e..857216f 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -513,6 +513,7 @@ Error PeerConnection::requestPictureLossIndicator(const std::shared_ptr<Track>&
 
 uint32_t PeerConnection::getDataChannelMaxMessageSize() const
 {
+    std::lock_guard lock(mMutex);
     return mDataChannelMaxMessageSize;
 }
 
-- 
2.43.0


From c55efbf13e6d477730337082bf0a38ab7fbb1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 116/118] fix: lines logged by several threads at once get
 mixed up, also their times

---
 src/logging.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 58bfe71..22548c7 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -9,6 +9,7 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <sstream>
 #endif
 
 namespace
@@ -77,7 +78,8 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 #ifdef _WIN32
         localtime_s(&local_tm, &time_t_now);
 #else
-        local_tm = *localtime(&time_t_now);
+        // Unlike localtime, does not use memory which is shared by all threads
+        localtime_r(&time_t_now, &local_tm);
 #endif
         const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000;
 
@@ -104,8 +106,11 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 
         char buf[2048];
         std::vsnprintf(buf, sizeof(buf), format, ap);
-        std::cout << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms
-                  << std::setfill(' ') << " [" << indicator << "] " << tag << ": " << buf << std::endl;
+        // Written at once, so that lines from several threads do not get mixed up
+        std::ostringstream line;
+        line << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms
+             << std::setfill(' ') << " [" << indicator << "] " << tag << ": " << buf << "\n";
+        std::cout << line.str() << std::flush;
 #endif
     }
 }
-- 
2.43.0


From 45ada83051a7baf910fc78ab22546ddf63ad1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 117/118] fix: srtc_publish: the time of frames goes back when
 a file is played again

---
 tools/srtc_publish.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tools/srtc_publish.cpp b/tools/srtc_publish.cpp
index 9c636c0..1b3e92a 100644
--- a/tools/srtc_publish.cpp
+++ b/tools/srtc_publish.cpp
@@ -94,6 +94,7 @@ std::string generateText(size_t size)
 void playVideoFile(const std::shared_ptr<srtc::PeerConnection>& peerConnection, const LoadedMedia& media)
 {
     std::optional<int64_t> pts_usec;
+    int64_t loop_usec = 0;
     uint32_t msg_seq = 0;
 
     const auto trackList = peerConnection->getTrackList();
@@ -105,11 +106,12 @@ void playVideoFile(const std::shared_ptr<srtc::PeerConnection>& peerConnection,
         uint32_t frame_count = 0;
 
         for (const auto& frame : media.frame_list) {
+            const auto frame_pts_usec = loop_usec + frame.pts_usec;
             if (pts_usec.has_value()) {
-                const auto delta_usec = frame.pts_usec - pts_usec.value();
+                const auto delta_usec = frame_pts_usec - pts_usec.value();
                 std::this_thread::sleep_for(std::chrono::microseconds(delta_usec));
             }
-            pts_usec = frame.pts_usec;
+            pts_usec = frame_pts_usec;
 
             if (!frame.csd.empty()) {
                 std::vector<srtc::ByteBuffer> csd_copy(frame.csd.size());
@@ -128,7 +130,7 @@ void playVideoFile(const std::shared_ptr<srtc::PeerConnection>& peerConnection,
                 abs_capture_time_ntp = (static_cast<uint64_t>(ntp.seconds) << 32u) | ntp.fraction;
             }
 
-            peerConnection->publishVideoFrame(track, frame.pts_usec, frame.frame.copy(), abs_capture_time_ntp);
+            peerConnection->publishVideoFrame(track, frame_pts_usec, frame.frame.copy(), abs_capture_time_ntp);
 
             frame_count += 1;
 
@@ -161,6 +163,15 @@ void playVideoFile(const std::shared_ptr<srtc::PeerConnection>& peerConnection,
 
         if (gLoopVideo) {
             std::cout << "Looping back to the beginning" << std::endl;
+
+            // The time of frames goes on, with one more interval between frames
+            const auto& list = media.frame_list;
+            if (list.empty()) {
+                return;
+            }
+            const auto length_usec = list.back().pts_usec - list.front().pts_usec;
+            const auto gap_usec = list.size() > 1 ? length_usec / static_cast<int64_t>(list.size() - 1) : 0;
+            loop_usec += length_usec + (gap_usec > 0 ? gap_usec : 40000);
         } else {
             std::cout << "The input file has ended, we are done" << std::endl;
             break;
-- 
2.43.0


From 2752ecbfabcd65169f5edd2a7e5473f22295fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 118/118] fix: packets of a source with several payload types
 were rejected after a sequence wrap

---
 src/srtp_connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index a5d39ac..f7a4b66 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -204,9 +204,10 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 8));
-    const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
-    const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
+    // A source has one sequence number space for all of its payload types
+    // https://datatracker.ietf.org/doc/html/rfc3711#section-3.2.3
+    const ChannelKey key = { ssrc, 0 };
     const auto channelIter = mSrtpInMap.find(key);
 
     uint16_t sequenceNumber;
-- 
2.43.0

