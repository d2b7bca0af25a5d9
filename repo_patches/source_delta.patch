From 08cf827ca5c5926f648d2ea937b63c99e0559924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 01/70] fix: no shift by 32 when reading an exp-Golomb value
 with 32 leading zeros

---
 src/bit_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..5f1e05c 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -37,7 +37,11 @@ uint32_t BitReader::readUnsignedExpGolomb()
 
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    if (leadingZeros >= 32) {
+        // 2^32 - 1 + remainingBits, only representable when there are no remaining bits
+        return 0xffffffffu;
+    }
+    return (1u << leadingZeros) - 1 + remainingBits;
 }
 
 } // namespace srtc
-- 
2.43.0


From e9643577bcbce93e980a94dbcd3249e56d08d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 02/70] fix: replay protection accepts unseen older values
 across a rollover

---
 src/replay_protection.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..4653083 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -8,10 +8,16 @@
 namespace
 {
 
-uint32_t getRolloverForwadDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
+// Both distances are modulo (maxPossibleValue + 1), so that they work across a rollover
+
+uint32_t getForwardDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
+{
+    return (value - curMaxValue) & maxPossibleValue;
+}
+
+uint32_t getBackwardDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
 {
-    assert(curMaxValue > value);
-    return maxPossibleValue - curMaxValue + 1 + value;
+    return (curMaxValue - value) & maxPossibleValue;
 }
 
 bool isSet(const uint8_t* storage, uint32_t storageSize, uint32_t value)
@@ -69,16 +75,10 @@ bool ReplayProtection::canProceed(uint32_t value)
 
     if (value == mCurMax) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-        return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
+    } else if (getForwardDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
         return true;
     } else {
-        const auto distance = mCurMax - value;
+        const auto distance = getBackwardDistance(mMaxPossibleValue, mCurMax, value);
         if (distance >= mSize) {
             return false;
         }
@@ -101,19 +101,11 @@ bool ReplayProtection::set(uint32_t value)
 
     if (value == mCurMax) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-
-        setForward(value);
-        return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
+    } else if (getForwardDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
         setForward(value);
         return true;
     } else {
-        const auto distance = mCurMax - value;
+        const auto distance = getBackwardDistance(mMaxPossibleValue, mCurMax, value);
         if (distance >= mSize) {
             return false;
         }
-- 
2.43.0


From 542338573ebfa04972843cbf1d011d5702b1413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 03/70] fix: evicting an old packet from send history keeps a
 newer one with the same sequence

---
 src/send_rtp_history.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/send_rtp_history.cpp b/src/send_rtp_history.cpp
index 81089b9..7188a99 100644
--- a/src/send_rtp_history.cpp
+++ b/src/send_rtp_history.cpp
@@ -23,7 +23,9 @@ void SendRtpHistory::save(const std::shared_ptr<RtpPacket>& packet)
     while (item.packetList.size() >= kMaxHistory) {
         auto& packetList = item.packetList;
         auto& packetMap = item.packetMap;
-        if (const auto iter = packetMap.find(packetList.back()->getSequence()); iter != packetMap.end()) {
+        // The sequence number may have been used again by a newer packet
+        if (const auto iter = packetMap.find(packetList.back()->getSequence());
+            iter != packetMap.end() && iter->second == packetList.back()) {
             packetMap.erase(iter);
         }
         packetList.pop_back();
-- 
2.43.0


From c4f07c291efd6dad7c99d8191e8271a78daafc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 04/70] fix: RTP timestamps no longer drift from media time due
 to rounding each frame

---
 include/srtc/rtp_time_source.h |  5 ++++-
 src/rtp_time_source.cpp        | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..c399c68 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -22,7 +22,10 @@ private:
     RandomGenerator<uint32_t> mRandom;
     const uint32_t mClockRate;
 
-    std::optional<int64_t> mCurrPts;
+    std::optional<int64_t> mBasePts;
+    uint32_t mBaseRtp;
+
+    int64_t mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
 };
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..d509a2a 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -7,6 +7,8 @@ namespace srtc
 RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     : mRandom(0, std::numeric_limits<int32_t>::max())
     , mClockRate(clockRate)
+    , mBaseRtp(0)
+    , mCurrPts(0)
     , mCurrTime(std::chrono::steady_clock::now())
     , mCurrRtp(mRandom.next())
 {
@@ -16,17 +18,20 @@ RtpTimeSource::~RtpTimeSource() = default;
 
 uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
 {
-    if (!mCurrPts.has_value()) {
+    if (!mBasePts.has_value()) {
+        mBasePts = pts;
+        mBaseRtp = mCurrRtp;
         mCurrPts = pts;
     }
 
-    const auto elapsed_usec = pts - mCurrPts.value();
-    if (elapsed_usec < 0) {
+    if (pts < mCurrPts) {
         // A client app bug, do something sensible
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // Always calculate from the first frame, so that rounding errors do not accumulate
+    const auto elapsed_usec = pts - mBasePts.value();
+    mCurrRtp = mBaseRtp + static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From ccb74b6e83499a3ce308c3e53bbcb3a5319c4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 05/70] fix: report round trip time, not twice that

---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..bae03dd 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // Time since sending, less the peer's delay, already is the roundtrip value, RFC 3550 section 6.4.1
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..15f53f6 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // Time since sending, less the peer's delay, already is the roundtrip value, RFC 3550 section 6.4.1
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From d62de6410fdc161b01b22b81d1b4af12dfef72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 06/70] fix: skip the CSRC list when parsing RTP packets

---
 src/rtp_packet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..2013c1a 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -293,6 +293,13 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Contributing sources
+    const auto csrcSize = ((header >> 8) & 0x0Fu) * 4u;
+    if (reader.remaining() < csrcSize) {
+        return {};
+    }
+    reader.skip(csrcSize);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
-- 
2.43.0


From c6bb02068be3365c8421a61fb57605415e372a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 07/70] fix: reject RTP packets with a zero padding count

---
 src/rtp_packet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 2013c1a..9f9819e 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -330,7 +330,8 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
             return {};
         }
         const auto paddingCount = payload.data()[payloadSize - 1];
-        if (paddingCount > payloadSize) {
+        if (paddingCount == 0 || paddingCount > payloadSize) {
+            // The count includes itself
             return {};
         }
 
-- 
2.43.0


From aaf9212a9a043be610cabb13d668b3282cab643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 08/70] fix: limit the bytes of a binary header extension to
 its declared length

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..d7afa4c 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
-- 
2.43.0


From aad42d1cc05a8876d509dfacbe2914c173e11f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 09/70] fix: find an empty header extension value at the end

---
 src/rtp_extension_builder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index d7afa4c..0352e2a 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -59,7 +59,7 @@ void RtpExtensionBuilder::addOrReplaceU16Value(uint8_t id, uint16_t value)
 {
     ByteReader reader(mBuf);
 
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         const auto extensionLen = reader.readU8();
 
@@ -101,7 +101,7 @@ RtpExtensionBuilder RtpExtensionBuilder::from(const RtpExtension& extension)
 bool RtpExtensionBuilder::contains(uint8_t id) const
 {
     ByteReader reader(mBuf);
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         if (extensionId == id) {
             return true;
-- 
2.43.0


From 992e0d133f31da588ac2161849a65ad033a53fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 10/70] fix: header extension values after padding are found

---
 include/srtc/rtp_extension.h |  2 +-
 src/rtp_extension.cpp        | 30 ++++++++++++++++--------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/srtc/rtp_extension.h b/include/srtc/rtp_extension.h
index 0fd2eaa..055f2fa 100644
--- a/include/srtc/rtp_extension.h
+++ b/include/srtc/rtp_extension.h
@@ -58,7 +58,7 @@ private:
     };
 
     // Walks to the next element, one-byte or two-byte format depending on mId.
-    // Returns false once padding, a reserved id, or truncated data is reached, or if
+    // Skips padding, returns false once the end, a reserved id, or truncated data is reached, or if
     // mId is neither the one-byte indicator nor a recognized two-byte indicator.
     [[nodiscard]] bool nextElement(ByteReader& reader, Element& out) const;
 
diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..145a5cb 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,18 +152,17 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        uint8_t value = 0;
+        while (value == 0) {
+            // Skip padding
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
-        if (id == 0x0Fu) {
+        if (id == 0 || id == 0x0Fu) {
             // Reserved
             return false;
         }
@@ -181,13 +180,16 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        // Skip padding
+        if (reader.remaining() < 1) {
+            return false;
+        }
+        id = reader.readU8();
     }
 
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
+    if (reader.remaining() < 1) {
         return false;
     }
 
-- 
2.43.0


From c55e6d3371c0cde660597f66f353f728339f0e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 11/70] fix: RTCP packets with a zero length word do not
 underflow the payload size

---
 src/rtcp_packet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..8f16c7b 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -84,6 +84,12 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 			break;
 		}
 
+		if (len < 8) {
+			// No room for an SSRC, this can be a BYE with no sources
+			ptr += len;
+			continue;
+		}
+
 		// Payload
 		ByteBuffer payload(ptr + 8, len - 8);
 
-- 
2.43.0


From a2e1990318ea0fff075fea4eb5892484cc063ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 12/70] fix: start code search does not run past the end of a
 short frame

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..4057284 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos < end && end - pos > 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos < end && end - pos > 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..fe3ccd9 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos < end && end - pos > 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos < end && end - pos > 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 205709d2f5bfc350eba9331637d4e7574e492808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 13/70] fix: VP9 dimensions of high bit depth frames

---
 src/codec_vp9.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index 23a894a..e6b982c 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -231,6 +231,9 @@ bool extractDimensions(const uint8_t* data, size_t size, uint16_t& width, uint16
     }
 
     // color_config()
+    if (profile >= 2) {
+        reader.readBit(); // ten_or_twelve_bit
+    }
     const auto color_space = reader.readBits(3);
     if (color_space != 7) {
         reader.readBit(); // color_range
-- 
2.43.0


From 2bb287b605121d3b700933cc871d29cca2687e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 14/70] fix: AV1 OBU size is checked against what remains after
 it, empty OBUs at the end are kept

---
 src/codec_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..7d8d917 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -42,7 +42,7 @@ ObuParser::ObuParser(const ByteBuffer& buf)
 
 ObuParser::operator bool() const
 {
-    return mCurrData && mCurrData < mEnd;
+    return mCurrData != nullptr;
 }
 
 void ObuParser::next()
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From 95529e38b783114f336dde3be5bb0fd8fa21bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 15/70] fix: H.264 and H.265 fragments without a start are
 ignored

---
 src/depacketizer_h264.cpp | 4 +++-
 src/depacketizer_h265.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..97a5495 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,12 +101,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..ed51cd6 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,12 +101,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 3a3ab5f6221d69b9bf6be9b2d0a0ea1beb27a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 16/70] fix: H.265 frame start detection looks at every unit of
 an aggregation packet

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index ed51cd6..5fe8f4b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -138,6 +138,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From ea608b67acbb946e9b7614c55cdf3c5f5e854903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 17/70] fix: H.264 and H.265 units of the last aggregation
 packet stay in one frame

---
 include/srtc/depacketizer_h264.h |  2 +-
 include/srtc/depacketizer_h265.h |  2 +-
 src/depacketizer_h264.cpp        | 24 ++++++++++++++----------
 src/depacketizer_h265.cpp        | 24 ++++++++++++++----------
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..3912714 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..2617dd0 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 97a5495..ee5ef50 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -66,6 +66,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
+        auto appended = false;
 
         if (reader.remaining() > 1) {
             const auto indicator = reader.readU8();
@@ -81,7 +82,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        appended |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,16 +107,22 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        appended |= extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                extractImpl(out, packet, packet->payload.copy());
+                appended |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // A packet can carry several units, the marker is for the last of them
+        if (packet->marker && appended) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -177,10 +184,10 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH264::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +205,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,10 +219,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 5fe8f4b..42e6983 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -67,6 +67,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
+        auto appended = false;
         if (reader.remaining() >= 2) {
             const auto nalUnitHeader = reader.readU16();
             const auto type = (nalUnitHeader >> 9) & 0x3Fu;
@@ -80,7 +81,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        appended |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,16 +107,22 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        appended |= extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                extractImpl(out, packet, packet->payload.copy());
+                appended |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // A packet can carry several units, the marker is for the last of them
+        if (packet->marker && appended) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -174,10 +181,10 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH265::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +205,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,10 +219,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
-- 
2.43.0


From 6bd2160ed2e40b19bd097c867fa86fc7f5b831a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 18/70] fix: H.264 units of one byte are not lost

---
 src/depacketizer_h264.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index ee5ef50..038235e 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -68,7 +68,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
         ByteReader reader(packet->payload);
         auto appended = false;
 
-        if (reader.remaining() > 1) {
+        if (reader.remaining() >= 1) {
             const auto indicator = reader.readU8();
 
             // https://datatracker.ietf.org/doc/html/rfc6184#section-5.4
@@ -112,7 +112,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_buf.reset();
                     }
                 }
-            } else if (type < 23) {
+            } else if (type <= 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
                 appended |= extractImpl(packet, packet->payload.copy());
             }
-- 
2.43.0


From 83b403754a18215d6a0ab98e3d37f6f8c56c6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 19/70] fix: AV1 payloads with inconsistent OBU sizes do not
 run past the packet

---
 src/depacketizer_av1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..cbbe040 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -135,7 +135,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
@@ -213,6 +213,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (reader.remaining() < obuSize) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From 9e138d60a18d302af9a71bea2cbaa46bc3f562d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 20/70] fix: AV1 units after a continued one in the same packet
 are separate

---
 src/depacketizer_av1.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index cbbe040..8968b64 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -64,11 +64,11 @@ void BufferedObu::flushTo(srtc::ByteWriter& out)
 
         out.writeLEB128(static_cast<uint32_t>(mBuf.size()));
         out.write(mBuf);
-
-        mBuf.clear();
-        mHeader = 0;
-        mExtension = 0;
     }
+
+    mBuf.clear();
+    mHeader = 0;
+    mExtension = 0;
 }
 
 } // namespace
@@ -125,7 +125,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
+                    if (!valueZ || obuIndex > 0) {
                         // Start of a new OBU
                         bufferedObu.flushTo(w);
 
-- 
2.43.0


From b3338dda787cab2b6c187b3e669c2c38928c9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 21/70] fix: the last packet of a frame is marked even if
 parameter sets follow

---
 src/packetizer_h264.cpp | 13 +++++++++++--
 src/packetizer_h265.cpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/packetizer_h264.cpp b/src/packetizer_h264.cpp
index 2629d3a..f2d6fad 100644
--- a/src/packetizer_h264.cpp
+++ b/src/packetizer_h264.cpp
@@ -83,6 +83,14 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    // Parameter sets are not sent on their own, so the marker goes to the last unit that is not one
+    const uint8_t* lastNalu = nullptr;
+    for (NaluParser parser(frame); parser; parser.next()) {
+        if (!isParameterNalu(parser.currType())) {
+            lastNalu = parser.currNalu();
+        }
+    }
+
     for (NaluParser parser(frame); parser; parser.next()) {
         const auto naluType = parser.currType();
 
@@ -127,6 +135,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
             // Now the frame itself
             const auto naluData = parser.currData();
             const auto naluSize = parser.currDataSize();
+            const auto isLastNalu = parser.currNalu() == lastNalu;
 
             auto padding = getPadding(track, extensionSourceList, naluSize);
             auto extension = buildExtension(track, extensionSourceList, naluType == NaluType::KeyFrame, 0);
@@ -136,7 +145,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastNalu;
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -185,7 +194,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastNalu;
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
diff --git a/src/packetizer_h265.cpp b/src/packetizer_h265.cpp
index 154daab..a504c22 100644
--- a/src/packetizer_h265.cpp
+++ b/src/packetizer_h265.cpp
@@ -86,6 +86,14 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    // Parameter sets are not sent on their own, so the marker goes to the last unit that is not one
+    const uint8_t* lastNalu = nullptr;
+    for (NaluParser parser(frame); parser; parser.next()) {
+        if (!isParameterNalu(parser.currType())) {
+            lastNalu = parser.currNalu();
+        }
+    }
+
     for (NaluParser parser(frame); parser; parser.next()) {
         const auto naluType = parser.currType();
 
@@ -135,6 +143,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
             // Now the frame itself
             const auto naluData = parser.currData();
             const auto naluSize = parser.currDataSize();
+            const auto isLastNalu = parser.currNalu() == lastNalu;
 
             auto padding = getPadding(track, extensionSourceList, naluSize);
             auto extension = buildExtension(track, extensionSourceList, isKeyFrameNalu(naluType), 0);
@@ -144,7 +153,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastNalu;
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -192,7 +201,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType & 0x3F);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastNalu;
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
-- 
2.43.0


From e1840a454e3b38d1b75e7d1bd91ac4a59285ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 22/70] fix: AV1 sizes of continued layered units, units
 without payload, packet budget

---
 src/packetizer_av1.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..54241cb 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -97,8 +97,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
     ByteBuffer payload;
     ByteWriter writer(payload);
 
-    // The "-4" is for the OBU headers and the LEB128 size
-    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 4;
+    // The "-5" is for the aggregation header, the OBU headers and the LEB128 size
+    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 5;
 
     RtpExtension extension;
     size_t usablePayloadSize = 0;
@@ -124,7 +124,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
         const auto spatialId = parser.currSpatialId();
         const auto isNeedHeaderExtension = temporalId != 0 || spatialId != 0;
 
-        while (obuCurrSize > 0) {
+        // An OBU without payload still has its header
+        do {
             if (payload.empty()) {
                 extension = buildExtension(track, extensionSourceList, isNewCodedVideoSequence, packetNumber);
                 padding = getPadding(track, extensionSourceList, basicPacketSize);
@@ -165,7 +166,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto writeSize = (isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2 : 1) : 0) + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
@@ -197,7 +198,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             // Advance
             obuCurrData += writeNow;
             obuCurrSize -= writeNow;
-        }
+        } while (obuCurrSize > 0);
     }
 
     if (!payload.empty()) {
-- 
2.43.0


From 92889f42a2d6543aa8eed490ab4c5746df1290ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 23/70] fix: VP9 TL0PICIDX is present in every non-flexible
 layer descriptor

---
 src/codec_vp9.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index e6b982c..da52d61 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -51,16 +51,14 @@ bool parsePayloadDescriptor(const uint8_t* data,
         }
     }
 
-    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0 and D=0)
+    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0)
     if (flagL) {
         if (pos >= size) {
             return false;
         }
-        const uint8_t l_byte = data[pos];
         pos++;
 
-        const bool d_bit = (l_byte & 0x01) != 0;
-        if (!flagF && !d_bit) {
+        if (!flagF) {
             if (pos >= size) {
                 return false;
             }
-- 
2.43.0


From 32c66d13d5da7621068d81ffb77e521a3c759b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 24/70] fix: frames older than the first received packet get a
 de-queue time in the past

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..bcb9356 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // Can be negative, if the first packets were reordered
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto time_delta =
+        std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 3b22854f86b0155e6e3c536ab50d0a982534d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 25/70] fix: a packet exactly one capacity ahead does not
 overwrite the oldest slot

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index bcb9356..6b08bf9 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -223,7 +223,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From 014c67965a01e9c79899042fc0b25fade2cc24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 26/70] fix: a duplicate of the last delivered frame's packets
 is not delivered again

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..0d878c4 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,6 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mLastFrameSeq;
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 6b08bf9..b460b9a 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,17 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Is this a duplicate from the last delivered frame, or even older?
+    if (mLastFrameSeq.has_value() && mLastFrameSeq.value() >= seq_ext) {
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: Will not enqueue SEQ = %" PRIu16
+            ", it's already been delivered",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
@@ -591,6 +602,7 @@ void JitterBuffer::freeEverything()
     }
 
     mLastFrameTimeStamp.reset();
+    mLastFrameSeq.reset();
 }
 
 JitterBufferItem* JitterBuffer::newItem()
@@ -662,6 +674,7 @@ void JitterBuffer::appendToResult(std::vector<std::shared_ptr<EncodedFrame>>& re
         }
 
         mLastFrameTimeStamp = item->rtp_timestamp_ext;
+        mLastFrameSeq = last->seq_ext;
 
         uint64_t absCaptureTimeNTP = 0u;
         uint64_t absCaptureTimeOffset = 0u;
-- 
2.43.0


From 809a278c5b2d332952c4ccb462161059cd3efd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 27/70] fix: abandoning a frame without an end keeps the frame
 after it

---
 src/jitter_buffer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index b460b9a..d25d6ee 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -718,6 +718,8 @@ JitterBuffer::SequenceResult JitterBuffer::findMultiPacketSequence(uint64_t& out
     assert(item->received);
     assert(item->kind == PacketKind::Start);
 
+    const auto startTimestamp = item->rtp_timestamp_ext;
+
     for (auto seq = mMinSeq + 1; seq < mMaxSeq; seq += 1) {
         index = seq & mCapacityMask;
         item = mItemList[index];
@@ -726,15 +728,17 @@ JitterBuffer::SequenceResult JitterBuffer::findMultiPacketSequence(uint64_t& out
         if (!item->received) {
             return SequenceResult::Gap;
         }
+        if ((item->kind != PacketKind::End && item->kind != PacketKind::Middle) ||
+            item->rtp_timestamp_ext != startTimestamp) {
+            // Another frame starts here, keep it
+            deleteItemList(mMinSeq, seq - 1);
+            mMinSeq = seq;
+            return SequenceResult::Abandoned;
+        }
         if (item->kind == PacketKind::End) {
             outEnd = seq;
             return SequenceResult::Complete;
         }
-        if (item->kind != PacketKind::Middle) {
-            deleteItemList(mMinSeq, seq);
-            mMinSeq = seq + 1;
-            return SequenceResult::Abandoned;
-        }
     }
 
     return SequenceResult::Gap;
-- 
2.43.0


From 246ba0f1505e5f01576ed1a06af09935f8794e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 28/70] fix: a marked packet that looks like a start ends a
 frame already started

---
 src/jitter_buffer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index d25d6ee..57e8e5f 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -301,7 +301,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
     // timestamp.
 
-    if (item->kind == PacketKind::Start) {
+    if (item->kind == PacketKind::Start || item->kind == PacketKind::Standalone) {
         if (mMinSeq < item->seq_ext) {
             const auto prev_seq = item->seq_ext - 1;
             const auto prev_index = prev_seq & mCapacityMask;
@@ -310,7 +310,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
             if (prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (prev_item->kind == PacketKind::Start || prev_item->kind == PacketKind::Middle) {
-                    item->kind = PacketKind::Middle;
+                    item->kind = item->kind == PacketKind::Start ? PacketKind::Middle : PacketKind::End;
                 }
             }
         }
@@ -326,6 +326,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             if (next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (next_item->kind == PacketKind::Start) {
                     next_item->kind = PacketKind::Middle;
+                } else if (next_item->kind == PacketKind::Standalone) {
+                    next_item->kind = PacketKind::End;
                 }
             }
         }
@@ -477,14 +479,11 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
 #ifdef NDEBUG
 #else
                     assert(!mTempPacketList.empty());
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.front()->payload,
-                                                        mTempPacketList.front()->marker) == PacketKind::Start);
+                    assert(mTempPacketList.front()->kind == PacketKind::Start);
                     for (size_t i = 1; i < mTempPacketList.size() - 1; i += 1) {
-                        assert(mDepacketizer->getPacketKind(mTempPacketList[i]->payload, mTempPacketList[i]->marker) ==
-                               PacketKind::Middle);
+                        assert(mTempPacketList[i]->kind == PacketKind::Middle);
                     }
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.back()->payload,
-                                                        mTempPacketList.back()->marker) == PacketKind::End);
+                    assert(mTempPacketList.back()->kind == PacketKind::End);
 #endif
 
                     // Extract, possibly into multiple frames
-- 
2.43.0


From b78bd26669aa7ae0ca76e41de63c6a5bd32e737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 29/70] fix: missing packets don't delay the frame which
 follows them

---
 src/jitter_buffer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 57e8e5f..c33d880 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -297,6 +297,15 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
     item->kind = mDepacketizer->getPacketKind(item->payload, item->marker);
 
+    // Packets missing right before this one can't be waited for longer than this one can
+    for (auto seq_lost = seq_ext; seq_lost > mMinSeq; seq_lost -= 1) {
+        const auto item_lost = mItemList[(seq_lost - 1) & mCapacityMask];
+        if (item_lost->received || item_lost->when_nack_abandon <= when_dequeue) {
+            break;
+        }
+        item_lost->when_nack_abandon = when_dequeue;
+    }
+
     // Some packetizers (I'm looking at you AV1) cannot tell if a packet starts a brand-new frame or is a continuation.
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
     // timestamp.
-- 
2.43.0


From 8e6001ca3e39e08916e52edc88fe62ce5d5a85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 30/70] fix: an abandoned packet doesn't hold back requests for
 the ones after it

---
 src/jitter_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index c33d880..a4222e4 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -589,8 +589,6 @@ std::vector<uint16_t> JitterBuffer::processNack()
                     static_cast<uint16_t>(mMaxSeq));
 #endif
             }
-        } else if (diff_millis(item->when_nack_abandon, now) <= 0) {
-            break;
         }
     }
 
-- 
2.43.0


From 18f0f6bb6220577473227a2a4e3f0e3e4e756ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 31/70] fix: rejected packets don't postpone the reset of the
 jitter buffer

---
 src/jitter_buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index a4222e4..3314072 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -141,7 +141,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -280,6 +279,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         assert(item);
     }
 
+    mLastPacketTime = now;
+
     item->when_received = now;
     item->when_dequeue = when_dequeue;
     item->when_nack_request = when_nack_request;
-- 
2.43.0


From 048061d71d9d4b7dbbccd090d5746686a1db4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 32/70] fix: H264 and H265 frames which start with a delimiter
 or SEI are delivered

---
 src/depacketizer_h264.cpp | 4 ++++
 src/depacketizer_h265.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 038235e..6c668ff 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == 6 || naluType == 9) {
+        // SEI and access unit delimiter come before all slices
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 42e6983..4a6a1f0 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == 35 || naluType == 39) {
+        // Access unit delimiter and prefix SEI come before all slices
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
-- 
2.43.0


From 512295c2b2b8e1222182b12a264a7eb9627bbcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 33/70] fix: feedback reports packets which arrive exactly at
 the base time

---
 include/srtc/twcc_subscribe.h |  2 +-
 src/twcc_subscribe.cpp        | 31 ++++++++++++++++++-------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..34e0f61 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -15,7 +15,7 @@ namespace srtc::twcc
 
 struct SubscribePacket {
     uint64_t seq_ext;
-    int64_t received_time_micros; // or 0
+    int64_t received_time_micros; // or kNotReceivedMicros
 };
 
 // A history of such packets
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..afc662c 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -5,12 +5,17 @@
 #include <cassert>
 #include <cinttypes>
 #include <cstring>
+#include <limits>
+#include <optional>
 
 #define LOG(level, ...) srtc::log(level, "TWCC", __VA_ARGS__)
 
 namespace
 {
 
+// Marks a packet which has not been received, all actual times are relative to the base time
+constexpr auto kNotReceivedMicros = std::numeric_limits<int64_t>::min();
+
 constexpr auto kNoPacketsResetDelayMicros = 2000 * 1000;
 
 constexpr auto kMaxPacketCount = 2048u;
@@ -298,7 +303,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMaxSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceivedMicros;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -342,7 +347,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMinSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceivedMicros;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -391,7 +396,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     std::list<ByteBuffer> list;
 
     uint16_t count = 0;
-    int64_t curr_time = 0;
+    std::optional<int64_t> curr_time;
     auto builder = std::make_unique<Builder>();
 
     bool received[14] = {};
@@ -404,7 +409,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
         index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
         packet = mPacketList[index];
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceivedMicros) {
             // A run of not received
             count = peekNotReceivedRun();
             assert(count >= 1 && count <= 8191);
@@ -412,13 +417,13 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             builder->addNotReceivedRun(packet, count);
             advance(count);
         } else {
-            if (curr_time == 0) {
+            if (!curr_time.has_value()) {
                 curr_time = (packet->received_time_micros / kReferenceTimeUnits) * kReferenceTimeUnits;
-                builder->setReferenceTime(curr_time);
+                builder->setReferenceTime(curr_time.value());
             }
 
-            int64_t packet_time_small = curr_time;
-            int64_t packet_time_large = curr_time;
+            int64_t packet_time_small = curr_time.value();
+            int64_t packet_time_large = curr_time.value();
 
             if (count = peekSmallDeltaRun(packet_time_small, received, delta_micros);
                 count == 14 || mMinSeq + count == mMaxSeq) {
@@ -437,7 +442,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
-                curr_time = 0;
+                curr_time.reset();
             }
         }
 
@@ -445,7 +450,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             // Packet size has gotten too large, flush
             list.push_back(builder->generate(mFbCount++));
             builder = std::make_unique<Builder>();
-            curr_time = 0;
+            curr_time.reset();
         }
     }
 
@@ -519,7 +524,7 @@ uint16_t SubscribePacketHistory::peekNotReceivedRun() const
 
         assert(packet);
 
-        if (packet->received_time_micros != 0) {
+        if (packet->received_time_micros != kNotReceivedMicros) {
             break;
         }
 
@@ -542,7 +547,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceivedMicros) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
@@ -575,7 +580,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceivedMicros) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
-- 
2.43.0


From 216ce262a9f19f59c94f68fe2d5b4917073ae645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 34/70] fix: rounding errors of arrival times don't accumulate
 in feedback reports

---
 src/twcc_subscribe.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index afc662c..b18d617 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -29,6 +29,9 @@ constexpr auto kMaxPacketSize = 1000;
 // Reference time is expressed as units of 64 milliseconds
 constexpr auto kReferenceTimeUnits = 64 * 1000;
 
+// Deltas are expressed as units of 250 microseconds
+constexpr auto kDeltaUnits = 250;
+
 // Small deltas are represented by an uint8 in units of 250 micros
 // Range: [0, 31.750 ms]
 constexpr auto kMinSmallDeltaMicros = 0;
@@ -39,6 +42,11 @@ constexpr auto kMaxSmallDeltaMicros = 250 * std::numeric_limits<uint8_t>::max();
 constexpr auto kMinLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::min();
 constexpr auto kMaxLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::max();
 
+int32_t roundDelta(int64_t delta_micros)
+{
+    return static_cast<int32_t>(delta_micros / kDeltaUnits * kDeltaUnits);
+}
+
 class Builder
 {
 public:
@@ -555,8 +563,9 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxSmallDeltaMicros) {
             // Acceptable small delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            // The delta is sent in units of 250 micros, don't let rounding errors accumulate
+            delta_micros[out] = roundDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
@@ -588,8 +597,8 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxLargeDeltaMicros) {
             // Acceptable large delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            delta_micros[out] = roundDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
-- 
2.43.0


From 68e6b508c1ffcaea80ffc881fb0ac4b9c9a6fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 35/70] fix: feedback generation terminates when arrival times
 are far apart

---
 src/twcc_subscribe.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index b18d617..375a852 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -65,6 +65,8 @@ public:
                           const bool* received,
                           const int32_t* delta_micros);
 
+    void addLargeDeltaSingle(srtc::twcc::SubscribePacket* packet, int32_t delta_micros);
+
     [[nodiscard]] bool empty() const;
     [[nodiscard]] size_t size() const;
 
@@ -180,6 +182,23 @@ void Builder::addLargeDeltaRun(srtc::twcc::SubscribePacket* first_packet,
     mPacketStatusCount += count;
 }
 
+void Builder::addLargeDeltaSingle(srtc::twcc::SubscribePacket* packet, int32_t delta_micros)
+{
+    // https://datatracker.ietf.org/doc/html/draft-holmer-rmcat-transport-wide-cc-extensions-01#section-3.1.3
+    assert(delta_micros >= kMinLargeDeltaMicros);
+    assert(delta_micros <= kMaxLargeDeltaMicros);
+
+    initBaseSeq(packet);
+
+    const auto header = static_cast<uint16_t>((srtc::twcc::kCHUNK_RUN_LENGTH << 15) |
+                                              (srtc::twcc::kSTATUS_RECEIVED_LARGE_DELTA << 13) | 1);
+    mWriterHeaders.writeU16(header);
+
+    mWriterTimestamps.writeU16(static_cast<uint16_t>(delta_micros / 250));
+
+    mPacketStatusCount += 1;
+}
+
 bool Builder::empty() const
 {
     return mBufHeaders.empty() && mBufTimestmaps.empty();
@@ -445,7 +464,12 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_large;
-            } else if (!builder->empty()) {
+            } else if (count >= 1) {
+                // This packet can be encoded, but one of those after it cannot
+                builder->addLargeDeltaSingle(packet, delta_micros[0]);
+                advance(1);
+                curr_time = curr_time.value() + delta_micros[0];
+            } else {
                 // The delta is too large even for the large delta encoding (unlikely but can happen), we have to start
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
-- 
2.43.0


From a7f5cf1d95398dda3431a152957dd2daf4493213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 36/70] fix: a duplicate doesn't change the arrival time of a
 packet

---
 src/twcc_subscribe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 375a852..cf76b80 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -400,7 +400,10 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
         assert(packet);
 
-        packet->received_time_micros = now_ext;
+        // The first arrival counts, not a duplicate
+        if (packet->received_time_micros == kNotReceivedMicros) {
+            packet->received_time_micros = now_ext;
+        }
     }
 }
 
-- 
2.43.0


From b354da29fa1b575da314846db3139e6c08acd9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 37/70] fix: the reference time of a feedback report is signed

---
 src/rtp_extension_source_twcc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index e2210b3..7d124e3 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -174,7 +174,8 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
         return;
     }
 
-    const auto reference_time = static_cast<int32_t>(reference_time_and_fb_pkt_count >> 8);
+    // Signed, 24 bits
+    const auto reference_time = static_cast<int32_t>(reference_time_and_fb_pkt_count) >> 8;
     const auto fb_pkt_count = static_cast<uint8_t>(reference_time_and_fb_pkt_count & 0xFFu);
     (void)fb_pkt_count;
 
-- 
2.43.0


From 3e2d738dbd90325c17e7d076716a6d37fc202c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 38/70] fix: a truncated feedback report changes nothing

---
 src/rtp_extension_source_twcc.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 7d124e3..12a5cef 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -209,7 +209,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             const uint16_t remaining = past_end_seq_number - seq_number;
             if (remaining < runLength) {
                 LOG(SRTC_LOG_E, "RTCP TWCC packet: run_length %u is too large, remaining %u", runLength, remaining);
-                break;
+                return;
             }
 
             for (unsigned int j = 0; j < runLength; ++j) {
@@ -263,7 +263,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     // Read the time deltas
     for (uint16_t i = 0; i < packet_status_count; ++i) {
         const auto symbol = tempList[i].status;
-        const auto ptr = mPacketHistory->get(base_seq_number + i);
 
         if (symbol == twcc::kSTATUS_RECEIVED_SMALL_DELTA) {
             if (reader.remaining() < 1) {
@@ -273,9 +272,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
             const auto delta = reader.readU8();
             tempList[i].delta_micros = 250 * delta;
-            if (ptr) {
-                ptr->reported_status = twcc::kSTATUS_RECEIVED_SMALL_DELTA;
-            }
         } else if (symbol == twcc::kSTATUS_RECEIVED_LARGE_DELTA) {
             if (reader.remaining() < 2) {
                 LOG(SRTC_LOG_E, "RTCP TWCC packet too small while reading large delta");
@@ -284,9 +280,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
             const auto delta = static_cast<int16_t>(reader.readU16());
             tempList[i].delta_micros = 250 * delta;
-            if (ptr) {
-                ptr->reported_status = twcc::kSTATUS_RECEIVED_LARGE_DELTA;
-            }
         }
     }
 
@@ -311,6 +304,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
                 }
 
                 curr_ptr->received_time_present = true;
+                curr_ptr->reported_status = tempList[i].status;
             }
 
             prev_ptr = curr_ptr;
-- 
2.43.0


From ff5ff9c7bc43b6d4272a34452db034e70b9adca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 39/70] fix: arrival times are right after a reported packet
 which is not in the history

---
 src/rtp_extension_source_twcc.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 12a5cef..2492fb8 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -289,25 +289,21 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     }
 
     // Resolve time deltas to absolute times
-    twcc::PublishPacket* prev_ptr = nullptr;
+    auto curr_time_micros = reference_time_micros;
 
     for (uint16_t i = 0; i < packet_status_count; i += 1) {
         const auto curr_seq = static_cast<uint16_t>(base_seq_number + i);
         const auto curr_ptr = mPacketHistory->get(curr_seq);
 
         if (isReceivedWithTime(tempList[i].status)) {
-            if (curr_ptr) { // Needed only for MSVC compiler
-                if (!prev_ptr) {
-                    curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
-                } else {
-                    curr_ptr->received_time_micros = prev_ptr->received_time_micros + tempList[i].delta_micros;
-                }
+            // Deltas are relative to the previous received packet, even if it's no longer in our history
+            curr_time_micros += tempList[i].delta_micros;
 
+            if (curr_ptr) {
+                curr_ptr->received_time_micros = curr_time_micros;
                 curr_ptr->received_time_present = true;
                 curr_ptr->reported_status = tempList[i].status;
             }
-
-            prev_ptr = curr_ptr;
         }
     }
 
-- 
2.43.0


From 0ca80a1d1f0107f211a272dd4e81f3160046b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 40/70] fix: a packet reported as received late is no longer
 counted as lost

---
 src/rtp_extension_source_twcc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 2492fb8..82f76f3 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -303,6 +303,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
                 curr_ptr->received_time_micros = curr_time_micros;
                 curr_ptr->received_time_present = true;
                 curr_ptr->reported_status = tempList[i].status;
+                curr_ptr->reported_as_not_received = false;
             }
         }
     }
-- 
2.43.0


From c8485e1c820b5ec3935f3dacc097a89e169a2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 41/70] fix: SRTP doesn't encrypt the contributing sources of a
 packet

---
 src/srtp_crypto.cpp | 93 ++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..388cdec 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -31,11 +31,40 @@ namespace
 constexpr size_t kAESGCM_TagSize = 16;
 
 constexpr uint16_t kRTP_ExtensionBit = 0x1000;
+constexpr uint16_t kRTP_CsrcCountMask = 0x0F00;
 
 constexpr uint32_t kRTCP_EncryptedBit = 0x80000000u;
 constexpr size_t kRTCP_HeaderSize = 8u;
 constexpr size_t kRTCP_TrailerSize = 4u;
 
+// The size of the RTP header, including CSRCs and extensions. It's not encrypted, and must be followed by a payload.
+size_t getRtpHeaderSize(const uint8_t* data, size_t size)
+{
+    size_t headerSize = 4 + 4 + 4;
+    if (headerSize >= size) {
+        return 0;
+    }
+
+    const uint16_t header = ntohs(*reinterpret_cast<const uint16_t*>(data));
+    headerSize += 4 * ((header & kRTP_CsrcCountMask) >> 8);
+
+    if ((header & kRTP_ExtensionBit) != 0) {
+        if (headerSize + 4 > size) {
+            return 0;
+        }
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(data + headerSize + 2));
+        headerSize += 4;
+        headerSize += extensionSize * 4;
+    }
+
+    if (headerSize >= size) {
+        // The header reaches the end of payload (empty payload) or extends past its end
+        return 0;
+    }
+
+    return headerSize;
+}
+
 } // namespace
 
 namespace srtc
@@ -168,7 +197,6 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto packetData = packet.data();
     const auto packetSize = packet.size();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(packetData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData + 8));
 
@@ -188,16 +216,9 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getRtpHeaderSize(packetData, packetSize);
+    if (headerSize == 0) {
+        return false;
     }
     std::memcpy(encryptedData, packetData, headerSize);
 
@@ -273,7 +294,6 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto packetData = packet.data();
     const auto packetSize = packet.size();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(packetData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData + 8));
 
@@ -294,16 +314,9 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getRtpHeaderSize(packetData, packetSize);
+    if (headerSize == 0) {
+        return false;
     }
 
     std::memcpy(encryptedData, packetData, headerSize);
@@ -395,7 +408,6 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
 
     const auto encryptedData = packet.data();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(encryptedData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(encryptedData + 8));
 
@@ -415,20 +427,9 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
-            return false;
-        }
-
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getRtpHeaderSize(encryptedData, encryptedSize - digestSize);
+    if (headerSize == 0) {
+        return false;
     }
     std::memcpy(plainData, encryptedData, headerSize);
 
@@ -513,7 +514,6 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
 
     const auto encryptedData = packet.data();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(encryptedData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(encryptedData + 8));
 
@@ -537,20 +537,9 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
-            return false;
-        }
-
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getRtpHeaderSize(encryptedData, encryptedSize - digestSize);
+    if (headerSize == 0) {
+        return false;
     }
 
     std::memcpy(plainData, encryptedData, headerSize);
-- 
2.43.0


From a52d00c9b2294f68f282bea1529140f868616362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 42/70] fix: forged packets don't affect the rollover counter

---
 src/srtp_connection.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..f37e0c1 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -224,18 +224,20 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
 
     // Because of jitter, we may cross the rollover back and forth, only count once
     auto rolloverCount = channelValue.rolloverCount;
+    auto newRolloverCount = channelValue.rolloverCount;
+    auto newLastSequence16 = channelValue.lastSequence16;
     if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
+        newLastSequence16 = sequenceNumber;
     } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
         if (rolloverCount > 0) {
             rolloverCount -= 1;
         }
     } else {
         if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
             rolloverCount += 1;
+            newRolloverCount = rolloverCount;
         }
-        channelValue.lastSequence16 = sequenceNumber;
+        newLastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +254,9 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // The packet is authentic, only now can it affect our state
+    channelValue.rolloverCount = newRolloverCount;
+    channelValue.lastSequence16 = newLastSequence16;
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From 9bd9e5a3d47a62f4009ec3fc13a6269718ef0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 43/70] fix: media is decrypted after a reconnect which follows
 a sequence number rollover

---
 include/srtc/replay_protection.h |  1 +
 src/replay_protection.cpp        |  6 ++++++
 src/srtp_connection.cpp          | 31 ++++++++++++++++++++-----------
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..b81c1ee 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -11,6 +11,7 @@ public:
     ReplayProtection(uint32_t maxPossibleValue, uint32_t size);
     ~ReplayProtection();
 
+    void reset();
     [[nodiscard]] bool canProceed(uint32_t value);
     bool set(uint32_t value);
 
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 4653083..0fe1593 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -67,6 +67,12 @@ ReplayProtection::~ReplayProtection()
     delete[] mStorage;
 }
 
+void ReplayProtection::reset()
+{
+    delete[] mStorage;
+    mStorage = nullptr;
+}
+
 bool ReplayProtection::canProceed(uint32_t value)
 {
     if (!mStorage) {
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index f37e0c1..5ef472b 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -114,9 +114,13 @@ SrtpConnection::~SrtpConnection() = default;
 void SrtpConnection::onPeerConnected()
 {
     // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
-    mSrtpInMap.clear();
-    mSrtpOutMap.clear();
+    // Technically we only need this for the incoming map, but let's reset both for consistency.
+    // The rollover counters have to be kept, the sender's side doesn't restart them.
+    for (auto map : { &mSrtpInMap, &mSrtpOutMap }) {
+        for (auto& item : *map) {
+            item.second.replayProtection->reset();
+        }
+    }
 }
 
 size_t SrtpConnection::getMediaProtectionOverhead() const
@@ -228,16 +232,21 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     auto newLastSequence16 = channelValue.lastSequence16;
     if (!channelValue.lastSequence16) {
         newLastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
-            rolloverCount -= 1;
-        }
     } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            rolloverCount += 1;
-            newRolloverCount = rolloverCount;
+        // https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
+        const auto lastSequence = channelValue.lastSequence16.value();
+        const auto isNewer = static_cast<uint16_t>(sequenceNumber - lastSequence) < 0x8000u;
+        if (!isNewer) {
+            if (sequenceNumber > lastSequence && rolloverCount > 0) {
+                rolloverCount -= 1;
+            }
+        } else {
+            if (sequenceNumber < lastSequence) {
+                rolloverCount += 1;
+                newRolloverCount = rolloverCount;
+            }
+            newLastSequence16 = sequenceNumber;
         }
-        newLastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
-- 
2.43.0


From e1359e7f699801b0b3f4ecc6226689e5275a4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 44/70] fix: a SACK with fewer gap blocks than announced is
 discarded

---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..7e24431 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -673,6 +673,11 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (r.remaining() < numGapBlocks * 4u) {
+        LOG(SRTC_LOG_W, "SACK with %u gap blocks is truncated, discarding", static_cast<unsigned int>(numGapBlocks));
+        return;
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From 9e4dbef27e509a64f31df48bdc7ab4e84aabf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 45/70] fix: fragments and messages which arrive out of order
 are reassembled by TSN

---
 src/sctp/data_channel_receive_buffer.cpp | 80 +++++++++++++++---------
 src/sctp/data_channel_receive_buffer.h   | 22 +++++--
 src/sctp/sctp_session.cpp                | 26 +++++---
 src/sctp/sctp_session.h                  |  1 +
 4 files changed, 85 insertions(+), 44 deletions(-)

diff --git a/src/sctp/data_channel_receive_buffer.cpp b/src/sctp/data_channel_receive_buffer.cpp
index 904dca1..f7663d4 100644
--- a/src/sctp/data_channel_receive_buffer.cpp
+++ b/src/sctp/data_channel_receive_buffer.cpp
@@ -4,58 +4,82 @@
 namespace srtc::sctp
 {
 
-void DataChannelReceiveBuffer::consumeSsn(uint16_t ssn)
+std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::consumeSsn(uint16_t ssn)
 {
     if (ssn == mNextSsn) {
         mNextSsn++;
     }
+    return drain();
+}
+
+std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::drain()
+{
+    std::list<Message> out;
+
+    // Consecutive complete messages from mNextSsn.
+    while (true) {
+        auto it = mComplete.find(mNextSsn);
+        if (it == mComplete.end())
+            break;
+        out.push_back(std::move(it->second));
+        mComplete.erase(it);
+        mNextSsn++;
+    }
+
+    return out;
 }
 
 std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
     uint16_t ssn, uint8_t flags, bool unordered, uint32_t ppid, const uint8_t* data, size_t size)
 {
-    const bool isFirst = (flags & kDataFlagB) != 0;
-    const bool isLast = (flags & kDataFlagE) != 0;
+    return receive(mNextArrivalTsn++, ssn, flags, unordered, ppid, data, size);
+}
 
+std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
+    uint32_t tsn, uint16_t ssn, uint8_t flags, bool unordered, uint32_t ppid, const uint8_t* data, size_t size)
+{
     std::list<Message> out;
 
     if (!unordered) {
         // Discard already-delivered SSNs (retransmits of fragments we already consumed).
-        if (static_cast<int16_t>(ssn - mNextSsn) < 0)
+        if (static_cast<int16_t>(ssn - mNextSsn) < 0 || mComplete.count(ssn) > 0)
             return out;
     }
 
-    // Accumulate fragment into the pending entry for this SSN.
-    auto& pending = mPending[ssn];
-    if (isFirst) {
-        pending.ppid = ppid;
-        pending.payload.clear();
+    if (!mFragments.emplace(tsn, Fragment{ flags, ppid, { data, data + size } }).second)
+        return out;
+
+    // Find the first and the last fragment, all the ones in between must have arrived too.
+    auto firstTsn = tsn;
+    while ((mFragments.at(firstTsn).flags & kDataFlagB) == 0) {
+        const auto it = mFragments.find(firstTsn - 1);
+        if (it == mFragments.end() || (it->second.flags & kDataFlagE) != 0)
+            return out;
+        firstTsn -= 1;
     }
-    pending.payload.insert(pending.payload.end(), data, data + size);
-    if (isLast) {
-        pending.complete = true;
+
+    auto lastTsn = tsn;
+    while ((mFragments.at(lastTsn).flags & kDataFlagE) == 0) {
+        const auto it = mFragments.find(lastTsn + 1);
+        if (it == mFragments.end() || (it->second.flags & kDataFlagB) != 0)
+            return out;
+        lastTsn += 1;
     }
 
-    if (unordered) {
-        if (pending.complete) {
-            out.push_back({ pending.ppid, ByteBuffer(pending.payload.data(), pending.payload.size()) });
-            mPending.erase(ssn);
-        }
-        return out;
+    Message message{ mFragments.at(firstTsn).ppid, {} };
+    for (auto t = firstTsn; t != lastTsn + 1; t += 1) {
+        const auto it = mFragments.find(t);
+        message.data.append(it->second.payload.data(), it->second.payload.size());
+        mFragments.erase(it);
     }
 
-    // Ordered: drain consecutive complete messages from mNextSsn.
-    while (true) {
-        auto it = mPending.find(mNextSsn);
-        if (it == mPending.end() || !it->second.complete)
-            break;
-        const auto& p = it->second;
-        out.push_back({ p.ppid, ByteBuffer(p.payload.data(), p.payload.size()) });
-        mPending.erase(it);
-        mNextSsn++;
+    if (unordered) {
+        out.push_back(std::move(message));
+        return out;
     }
 
-    return out;
+    mComplete.emplace(ssn, std::move(message));
+    return drain();
 }
 
 } // namespace srtc::sctp
diff --git a/src/sctp/data_channel_receive_buffer.h b/src/sctp/data_channel_receive_buffer.h
index 17ab35d..9f1584a 100644
--- a/src/sctp/data_channel_receive_buffer.h
+++ b/src/sctp/data_channel_receive_buffer.h
@@ -20,24 +20,34 @@ public:
 
     // Records that 'ssn' was consumed by a control message (DCEP open/ack),
     // advancing mNextSsn without delivering a payload.
-    void consumeSsn(uint16_t ssn);
+    // Returns messages which were waiting for this SSN and are now deliverable.
+    std::list<Message> consumeSsn(uint16_t ssn);
 
     // Accepts one incoming DATA chunk fragment. 'flags' carries the B (0x01)
-    // and E (0x02) bits from the DATA chunk header. Returns all messages now
+    // and E (0x02) bits from the DATA chunk header. The fragments of a message
+    // have consecutive TSNs but can arrive in any order. Returns all messages now
     // deliverable: for unordered channels, any newly-completed message;
     // for ordered channels, all consecutive complete messages from mNextSsn.
+    std::list<Message> receive(
+        uint32_t tsn, uint16_t ssn, uint8_t flags, bool unordered, uint32_t ppid, const uint8_t* data, size_t size);
+
+    // Same as above, for fragments which arrive in the order in which they were sent
     std::list<Message> receive(
         uint16_t ssn, uint8_t flags, bool unordered, uint32_t ppid, const uint8_t* data, size_t size);
 
 private:
-    struct PendingMessage {
-        uint32_t ppid = 0;
+    struct Fragment {
+        uint8_t flags;
+        uint32_t ppid;
         std::vector<uint8_t> payload;
-        bool complete = false;
     };
 
+    std::list<Message> drain();
+
     uint16_t mNextSsn = 0;
-    std::map<uint16_t, PendingMessage> mPending;
+    uint32_t mNextArrivalTsn = 0;
+    std::map<uint32_t, Fragment> mFragments; // by TSN, of incomplete messages
+    std::map<uint16_t, Message> mComplete;   // by SSN, ordered messages waiting for their turn
 };
 
 } // namespace srtc::sctp
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 7e24431..54b60e2 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -496,6 +496,18 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     }
 }
 
+void SctpSession::deliverMessages(const DataChannel& channel, const std::list<DataChannelReceiveBuffer::Message>& messages)
+{
+    for (const auto& msg : messages) {
+        if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+            const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
+            mListener->onSctpDataChannelText(channel.label, text);
+        } else {
+            mListener->onSctpDataChannelBinary(channel.label, msg.data);
+        }
+    }
+}
+
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
@@ -541,15 +553,8 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
-            for (const auto& msg : messages) {
-                if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
-                    const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
-                    mListener->onSctpDataChannelText(channel.label, text);
-                } else {
-                    mListener->onSctpDataChannelBinary(channel.label, msg.data);
-                }
-            }
+                channel.receiveBuffer.receive(peerTSN, ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+            deliverMessages(channel, messages);
             break;
         }
         return;
@@ -564,8 +569,9 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         for (auto& channel : mDataChannels) {
             if (channel.streamId == streamId && channel.state == DataChannelState::kOpening) {
                 channel.state = DataChannelState::kOpen;
-                channel.receiveBuffer.consumeSsn(ssn);
+                const auto messages = channel.receiveBuffer.consumeSsn(ssn);
                 mListener->onSctpDataChannelOpen(channel.label);
+                deliverMessages(channel, messages);
                 break;
             }
         }
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..bef9e91 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -109,6 +109,7 @@ private:
     void onReceiveCookieEcho(const SctpPacket::Chunk& chunk);
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
+    void deliverMessages(const DataChannel& channel, const std::list<DataChannelReceiveBuffer::Message>& messages);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
-- 
2.43.0


From 62040cb9fcddbf329566261ed9b818b086320af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 46/70] fix: data channel open and ack messages use up a stream
 sequence number

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 54b60e2..e3f05c0 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -478,7 +478,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // DCEP messages are ordered and use up stream sequence numbers
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -602,7 +602,7 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From 24193d1dd10d5e3e1cf0b6c3520f05497c88bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 47/70] fix: queued data channel messages keep their order and
 are always sent eventually

---
 src/sctp/sctp_session.cpp | 10 ++++++++--
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e3f05c0..6e41473 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -117,7 +117,7 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
+    if (!mPendingSend.empty() || isSendWindowFull(payloadSize)) {
         mPendingSend.emplace_back(std::move(message));
         return;
     }
@@ -125,6 +125,12 @@ void SctpSession::send(DataChannelMessage&& message)
     sendMessageNow(*it, std::move(message));
 }
 
+bool SctpSession::isSendWindowFull(size_t payloadSize) const
+{
+    // With nothing in flight there will be no SACK to continue from, so even a large message is sent
+    return payloadSize > 0 && mFlightSize > 0 && mFlightSize + payloadSize > mPeerRwnd;
+}
+
 void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& message)
 {
     std::string textStorage;
@@ -205,7 +211,7 @@ void SctpSession::transmitPending()
         }
 
         const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
+        if (isSendWindowFull(payloadSize))
             break;
 
         sendMessageNow(*it, std::move(msg));
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index bef9e91..03aae22 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -115,6 +115,7 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
+    [[nodiscard]] bool isSendWindowFull(size_t payloadSize) const;
     void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
     void transmitPending();
     void retransmitOldest();
-- 
2.43.0


From ad642449cd6de47a515d7f6c9e4e0d0d937b16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 48/70] fix: received chunks are not forgotten after having
 been acknowledged

---
 src/sctp/sctp_defs.h      |  1 +
 src/sctp/sctp_session.cpp | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..94eddb3 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -64,6 +64,7 @@ constexpr uint32_t kReconfigResultSuccess = 0x00000000;
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
 constexpr uint16_t kInitStreams = 1024;
+constexpr size_t kMaxOutOfOrderTsns = 1024; // received chunks beyond a gap which we keep track of
 
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 6e41473..8378143 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -535,6 +535,14 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         return;
     }
 
+    // A chunk which we cannot report in a SACK is dropped and will be retransmitted, once we say that
+    // we received something we have to remember it
+    if (peerTSN - mPeerCumulativeTsn > 0xFFFFu ||
+        (peerTSN != mPeerCumulativeTsn + 1 && mPeerOutOfOrderTsns.size() >= kMaxOutOfOrderTsns)) {
+        sendSack();
+        return;
+    }
+
     if (peerTSN == mPeerCumulativeTsn + 1) {
         mPeerCumulativeTsn = peerTSN;
         // Drain any now-consecutive TSNs from the out-of-order set
@@ -547,9 +555,6 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         }
     } else {
         mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
-        }
     }
     sendSack();
 
-- 
2.43.0


From 0e6887b9df30fde027dfb55cbc1cc6e49ea0709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 49/70] fix: a late INIT or INIT_ACK does not reset the state
 of received data

---
 src/sctp/sctp_session.cpp | 38 +++++++++++++++++++++++++++++---------
 src/sctp/sctp_session.h   |  2 ++
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 8378143..a7f08ff 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -260,6 +260,22 @@ void SctpSession::sendCookieEcho(unsigned iteration)
     mTaskT1Cookie = mScheduler.submit(delay, __FILE__, __LINE__, [this, iteration] { sendCookieEcho(iteration + 1); });
 }
 
+void SctpSession::setPeerParameters(
+    uint32_t tag, uint32_t rwnd, uint16_t outStreams, uint16_t inStreams, uint32_t initialTsn)
+{
+    if (tag == mPeerTag) {
+        // Already know this peer, and may have received data from it
+        return;
+    }
+
+    mPeerTag = tag;
+    mPeerRwnd = rwnd;
+    mPeerOutStreams = outStreams;
+    mPeerInStreams = inStreams;
+    mPeerCumulativeTsn = initialTsn - 1;
+    mPeerOutOfOrderTsns.clear();
+}
+
 void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
 {
     if (chunk.size < 16)
@@ -276,10 +292,9 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+    if (mState == State::New || mState == State::CookieWait) {
+        setPeerParameters(peerInitiateTag, peerRwnd, peerOutStreams, peerInStreams, peerInitialTsn);
+    }
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -430,11 +445,12 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkInitAck:
             if (mState == State::CookieWait && chunk.size >= 16) {
                 ByteReader r(chunk.data, chunk.size);
-                mPeerTag = r.readU32();
-                mPeerRwnd = r.readU32();
-                mPeerOutStreams = r.readU16();
-                mPeerInStreams = r.readU16();
-                mPeerCumulativeTsn = r.readU32() - 1; // peerInitialTsn - 1
+                const auto peerTag = r.readU32();
+                const auto peerRwnd = r.readU32();
+                const auto peerOutStreams = r.readU16();
+                const auto peerInStreams = r.readU16();
+                const auto peerInitialTsn = r.readU32();
+                setPeerParameters(peerTag, peerRwnd, peerOutStreams, peerInStreams, peerInitialTsn);
 
                 for (const auto& param : chunk.parseParams(16)) {
                     if (param.type == kParamStateCookie) {
@@ -520,6 +536,10 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
     if (chunk.size < 12)
         return;
 
+    // Don't know the peer's sequence numbers yet
+    if (mPeerTag == 0)
+        return;
+
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
     const auto streamId = r.readU16();
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 03aae22..04a6b9b 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -105,6 +105,8 @@ private:
 
     void sendInit(unsigned iteration);
     void sendCookieEcho(unsigned iteration);
+    void setPeerParameters(
+        uint32_t tag, uint32_t rwnd, uint16_t outStreams, uint16_t inStreams, uint32_t initialTsn);
     void onReceiveInit(const SctpPacket::Chunk& chunk);
     void onReceiveCookieEcho(const SctpPacket::Chunk& chunk);
     void onAssociationEstablished();
-- 
2.43.0


From 320e14fcbbd4021d33c7e416b48f500e64fb8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 50/70] fix: messages sent on an open channel during our own
 handshake are not dropped

---
 src/sctp/sctp_session.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index a7f08ff..e4678c4 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -99,10 +99,6 @@ bool SctpSession::isChannelOpen(const std::string& label) const
 
 void SctpSession::send(DataChannelMessage&& message)
 {
-    if (mState != State::Established) {
-        return;
-    }
-
     auto it = std::find_if(
         mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
     if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
@@ -117,7 +113,8 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (!mPendingSend.empty() || isSendWindowFull(payloadSize)) {
+    // The peer can open a channel before our own handshake completes
+    if (mState != State::Established || !mPendingSend.empty() || isSendWindowFull(payloadSize)) {
         mPendingSend.emplace_back(std::move(message));
         return;
     }
@@ -478,6 +475,7 @@ void SctpSession::onAssociationEstablished()
     for (auto& channel : mDataChannels) {
         sendDataChannelOpen(channel);
     }
+    transmitPending();
 }
 
 void SctpSession::sendDataChannelOpen(DataChannel& channel)
-- 
2.43.0


From 84d5eb1c0573b05507ee0dcc325ac15917c90594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 51/70] fix: a data channel open message with a truncated
 protocol is rejected

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e4678c4..70a76dd 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -612,8 +612,8 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         const bool unordered = (channelType & 0x80) != 0;
         r.skip(6); // priority, reliabilityParameter
         const auto labelLen = r.readU16();
-        r.skip(2); // protocolLength
-        if (labelLen > r.remaining()) {
+        const auto protocolLen = r.readU16();
+        if (static_cast<size_t>(labelLen) + protocolLen > r.remaining()) {
             return;
         }
         const auto label = r.readString(labelLen);
-- 
2.43.0


From abfeaf346d1ab0b34c0262817a8d3c5752f55c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 52/70] fix: messages are sent on the channel which is open
 when both peers open one with the same label

---
 src/sctp/sctp_session.cpp | 17 +++++++++++------
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 70a76dd..16d2b4b 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -99,9 +99,8 @@ bool SctpSession::isChannelOpen(const std::string& label) const
 
 void SctpSession::send(DataChannelMessage&& message)
 {
-    auto it = std::find_if(
-        mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
-    if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+    const auto it = findOpenChannel(message.label);
+    if (it == mDataChannels.end()) {
         return;
     }
 
@@ -122,6 +121,13 @@ void SctpSession::send(DataChannelMessage&& message)
     sendMessageNow(*it, std::move(message));
 }
 
+std::list<SctpSession::DataChannel>::iterator SctpSession::findOpenChannel(const std::string& label)
+{
+    return std::find_if(mDataChannels.begin(), mDataChannels.end(), [&label](const DataChannel& channel) {
+        return channel.label == label && channel.state == DataChannelState::kOpen;
+    });
+}
+
 bool SctpSession::isSendWindowFull(size_t payloadSize) const
 {
     // With nothing in flight there will be no SACK to continue from, so even a large message is sent
@@ -200,9 +206,8 @@ void SctpSession::transmitPending()
     while (!mPendingSend.empty()) {
         auto& msg = mPendingSend.front();
 
-        auto it = std::find_if(
-            mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == msg.label; });
-        if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+        const auto it = findOpenChannel(msg.label);
+        if (it == mDataChannels.end()) {
             mPendingSend.pop_front();
             continue;
         }
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 04a6b9b..a6fa2e3 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -117,6 +117,7 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
+    [[nodiscard]] std::list<DataChannel>::iterator findOpenChannel(const std::string& label);
     [[nodiscard]] bool isSendWindowFull(size_t payloadSize) const;
     void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
     void transmitPending();
-- 
2.43.0


From ed4b5cceead228339b22472beb8c6675167f8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 53/70] fix: a wrong entry in one of the CRC32c tables

---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 6a322554fc21e41a8c227067d5bc5f4a55d44afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 54/70] fix: empty data channel messages are sent as one zero
 byte and received as empty

---
 src/sctp/sctp_session.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 16d2b4b..e7cf9cc 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -152,6 +152,13 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
     }
 
+    // There are no empty DATA chunks, an empty message is sent as one zero byte (RFC 8831 section 6.6)
+    constexpr uint8_t kEmptyMessage[1] = { 0 };
+    if (payloadSize == 0) {
+        payload = kEmptyMessage;
+        payloadSize = sizeof(kEmptyMessage);
+    }
+
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
     const bool wasEmpty = mSentChunks.empty();
@@ -524,7 +531,11 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 void SctpSession::deliverMessages(const DataChannel& channel, const std::list<DataChannelReceiveBuffer::Message>& messages)
 {
     for (const auto& msg : messages) {
-        if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+        if (msg.ppid == kPpidStringEmpty) {
+            mListener->onSctpDataChannelText(channel.label, {});
+        } else if (msg.ppid == kPpidBinaryEmpty) {
+            mListener->onSctpDataChannelBinary(channel.label, {});
+        } else if (msg.ppid == kPpidString) {
             const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
             mListener->onSctpDataChannelText(channel.label, text);
         } else {
-- 
2.43.0


From e1fe37e399048f7be28fc8318482bd0247140d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 55/70] fix: channels opened by the peer during our handshake
 are not opened again

---
 src/sctp/sctp_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e7cf9cc..dd42e0f 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -485,7 +485,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 void SctpSession::onAssociationEstablished()
 {
     for (auto& channel : mDataChannels) {
-        sendDataChannelOpen(channel);
+        // Some may have been opened by the peer while we were waiting
+        if (channel.state == DataChannelState::kNone) {
+            sendDataChannelOpen(channel);
+        }
     }
     transmitPending();
 }
-- 
2.43.0


From f9d1f8c62617021d9a6617498f090b5761ac7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 56/70] fix: STUN attributes are not read past the end of the
 datagram

---
 src/stun/stunmessage.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index 82c0943..d4a5440 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -89,9 +89,14 @@ const void *
 stun_message_find (const StunMessage *msg, StunAttribute type,
     uint16_t *palen)
 {
-  size_t length = stun_message_length (msg);
+  size_t length = (size_t) stun_getw (msg->buffer + STUN_MESSAGE_LENGTH_POS) +
+      STUN_MESSAGE_HEADER_LENGTH;
   size_t offset = 0;
 
+  /* The message must be all there */
+  if (length > msg->buffer_len)
+    return NULL;
+
   /* In MS-TURN, IDs of REALM and NONCE STUN attributes are swapped.
   if (msg->agent && msg->agent->compatibility == STUN_COMPATIBILITY_OC2007)
   {
@@ -104,7 +109,7 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
   offset = STUN_MESSAGE_ATTRIBUTES_POS;
 
-  while (offset < length)
+  while (offset + STUN_ATTRIBUTE_VALUE_POS <= length)
   {
     uint16_t atype = stun_getw (msg->buffer + offset);
     size_t alen = stun_getw (msg->buffer + offset + STUN_ATTRIBUTE_TYPE_LEN);
@@ -112,6 +117,10 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
     offset += STUN_ATTRIBUTE_VALUE_POS;
 
+    /* And so must be the attribute's value */
+    if (alen > length - offset)
+      return NULL;
+
     if (atype == type)
     {
       *palen = alen;
-- 
2.43.0


From 6eaf570f33e6f4988dd2657ba67c59dbe3556e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 57/70] fix: STUN messages with attributes after the
 fingerprint are not accepted

---
 src/ice_agent.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 541d127..7fd8253 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -154,6 +154,11 @@ bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& u
 		return false;
 	}
 
+	if (static_cast<const uint8_t*>(attrFingerprintPtr) + 4 != msg->buffer + stun_message_length(msg)) {
+		LOG(SRTC_LOG_E, "Request verification failed: fingerprint is not the last attribute");
+		return false;
+	}
+
 	uint32_t fingerprintMessage;
 	std::memcpy(&fingerprintMessage, attrFingerprintPtr, 4);
 
@@ -219,6 +224,11 @@ bool IceAgent::verifyResponseMessage(stun::StunMessage* msg, const std::string&
 		return false;
 	}
 
+	if (static_cast<const uint8_t*>(attrFingerprintPtr) + 4 != msg->buffer + stun_message_length(msg)) {
+		LOG(SRTC_LOG_E, "Response verification failed: fingerprint is not the last attribute");
+		return false;
+	}
+
 	uint32_t fingerprintMessage;
 	std::memcpy(&fingerprintMessage, attrFingerprintPtr, 4);
 
-- 
2.43.0


From 9900a8a2ae20eb3fab0a96d1284e48c5da5a47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 58/70] fix: STUN attribute padding is not written past the end
 of the buffer

---
 src/stun/stunmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index d4a5440..1cda957 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -358,7 +358,7 @@ stun_message_append (StunMessage *msg, StunAttribute type, size_t length)
   }
  */
 
-  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + length > msg->buffer_len)
+  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + stun_align (length) > msg->buffer_len)
     return NULL;
 
 
-- 
2.43.0


From 0b208f6ca988e1d6c9aa2259c93e000d225cd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 59/70] fix: a STUN message whose username does not fit is
 reported as not built

---
 src/ice_agent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 7fd8253..31400d4 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -82,7 +82,10 @@ bool IceAgent::finishMessage(stun::StunMessage* msg,
 							 const std::string& password)
 {
 	if (username.has_value()) {
-		stun::stun_message_append_string(msg, stun::STUN_ATTRIBUTE_USERNAME, username.value().c_str());
+		if (stun::stun_message_append_string(msg, stun::STUN_ATTRIBUTE_USERNAME, username.value().c_str()) !=
+			stun::STUN_MESSAGE_RETURN_SUCCESS) {
+			return false;
+		}
 	}
 
 	auto ptr = stun::stun_message_append(msg, stun::STUN_ATTRIBUTE_MESSAGE_INTEGRITY, 20);
-- 
2.43.0


From ec380e9e9a89538184efda6fd34eadbe95baa5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 60/70] fix: numbers in an SDP answer which are empty, signed
 or too large are not accepted

---
 src/sdp_answer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..bfd99fd 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -8,6 +8,9 @@
 #include "srtc/x509_hash.h"
 
 #include <algorithm>
+#include <cctype>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -101,9 +104,14 @@ void parse_map(const std::string& line, std::unordered_map<std::string, std::str
 
 std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 {
+    // No empty strings, signs or white space, and nothing which does not fit
+    if (s.empty() || !std::isxdigit(static_cast<unsigned char>(s.front()))) {
+        return {};
+    }
+
     char* endptr = nullptr;
-    const auto l = std::strtoul(s.c_str(), &endptr, radix);
-    if (endptr == s.c_str() + s.size()) {
+    const auto l = std::strtoull(s.c_str(), &endptr, radix);
+    if (endptr == s.c_str() + s.size() && l <= std::numeric_limits<uint32_t>::max()) {
         return static_cast<uint32_t>(l);
     }
     return {};
-- 
2.43.0


From a8efdd7c595abcdd024eed5db8782a8a87ffa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 61/70] fix: port 65536 in an SDP answer does not become port 0

---
 src/sdp_answer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index bfd99fd..b8c4bf9 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -683,7 +683,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From f870ca4100d70b580a5777254ab756365c6b71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 62/70] fix: an SDP answer with a media id which is not in the
 offer is an error

---
 include/srtc/sdp_offer.h |  1 +
 src/sdp_answer.cpp       |  4 ++++
 src/sdp_offer.cpp        | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 9a655cc..1697494 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -108,6 +108,7 @@ public:
     [[nodiscard]] std::optional<std::vector<SimulcastLayer>> getVideoSimulcastLayerList(
         const std::string& mediaId) const;
 
+    [[nodiscard]] bool hasMedia(const std::string& mediaId) const;
     [[nodiscard]] std::pair<uint32_t, uint32_t> getMediaSSRC(const std::string& mediaId) const;
     [[nodiscard]] std::pair<uint32_t, uint32_t> getVideoSimulastSSRC(const std::string& mediaId,
                                                                      const std::string& rid) const;
diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index b8c4bf9..80ad12c 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -763,6 +763,10 @@ Error SdpAnswerParser::flush_m()
         }
 
         if (direction == Direction::Publish) {
+            if (!offer->hasMedia(mediaState.mediaId)) {
+                return { Error::Code::InvalidData, "Media id is not in the offer" };
+            }
+
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
 
             mediaState.ssrc = publishSSRC.first;
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..1e206f8 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -339,6 +339,17 @@ std::optional<std::vector<SimulcastLayer>> SdpOffer::getVideoSimulcastLayerList(
     return std::nullopt;
 }
 
+bool SdpOffer::hasMedia(const std::string& mediaId) const
+{
+    for (const auto& mediaItem : mMediaLineGeneratedList) {
+        if (mediaItem.mediaId == mediaId) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId) const
 {
     for (const auto& mediaItem : mMediaLineGeneratedList) {
-- 
2.43.0


From ccaf888823668df40c9ac78717cafb69aa615934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 63/70] fix: an offer does not have payload ids above 127

---
 src/sdp_offer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1e206f8..b2efc15 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -112,6 +112,7 @@ std::pair<std::string, Error> SdpOffer::generate()
     }
 
     uint32_t payloadId = 96;
+    constexpr uint32_t kMaxPayloadId = 127;
 
     // Media lines
     for (const auto& mediaLine : mMediaLineList) {
@@ -136,6 +137,10 @@ std::pair<std::string, Error> SdpOffer::generate()
             }
         }
 
+        if (payloadId + codecList.size() * (mConfig.enable_rtx ? 2 : 1) > kMaxPayloadId + 1) {
+            return { "", { Error::Code::InvalidData, "Too many codecs for the dynamic payload ids" } };
+        }
+
         mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);
         auto& mediaLineGenerated = mMediaLineGeneratedList.back();
         mediaLineGenerated.mediaType = mediaLine.mediaType;
-- 
2.43.0


From fb502974301f0c7fe6a68c174ce4372ac7ca594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 64/70] fix: the SSRCs of an offer are distinct

---
 include/srtc/sdp_offer.h |  2 ++
 src/sdp_offer.cpp        | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 1697494..7b10abc 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -120,6 +120,8 @@ public:
     [[nodiscard]] std::shared_ptr<RtcpPacketSource> getControlPacketSource() const;
 
 private:
+    [[nodiscard]] bool isUsedSSRC(uint32_t ssrc) const;
+    uint32_t generateSSRC();
     std::string generateRandomUUID();
     std::string generateRandomString(size_t len);
 
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index b2efc15..1d730be 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -222,7 +222,7 @@ std::pair<std::string, Error> SdpOffer::generate()
                 ss << "a=extmap:14 " << RtpStandardExtensions::kExtGoogleTWCC << std::endl;
             }
 
-            mediaLineGenerated.ssrc = 1 + mRandomGenerator.next();
+            mediaLineGenerated.ssrc = generateSSRC();
 
             if (!mControlPacketSource) {
                 mControlPacketSource = std::make_shared<RtcpPacketSource>(mediaLineGenerated.ssrc);
@@ -232,7 +232,7 @@ std::pair<std::string, Error> SdpOffer::generate()
             ss << "a=ssrc:" << mediaLineGenerated.ssrc << " msid:" << mConfig.cname << " " << msid << std::endl;
 
             if (mConfig.enable_rtx) {
-                mediaLineGenerated.rtx = 1 + mRandomGenerator.next();
+                mediaLineGenerated.rtx = generateSSRC();
 
                 ss << "a=ssrc:" << mediaLineGenerated.rtx << " cname:" << mConfig.cname << std::endl;
                 ss << "a=ssrc:" << mediaLineGenerated.rtx << " msid:" << mConfig.cname << " " << msid << std::endl;
@@ -278,7 +278,7 @@ std::pair<std::string, Error> SdpOffer::generate()
             for (const auto& layer : layerList) {
                 mediaLineGenerated.layer.emplace_back(layer.name);
                 auto& layerGenerated = mediaLineGenerated.layer.back();
-                layerGenerated.ssrc = 1 + mRandomGenerator.next();
+                layerGenerated.ssrc = generateSSRC();
 
                 ss << "a=ssrc:" << layerGenerated.ssrc << " cname:" << mConfig.cname << std::endl;
                 ss << "a=ssrc:" << layerGenerated.ssrc << " msid:" << mConfig.cname << " " << msid << std::endl;
@@ -288,7 +288,7 @@ std::pair<std::string, Error> SdpOffer::generate()
                 }
 
                 if (mConfig.enable_rtx) {
-                    layerGenerated.rtx = 1 + mRandomGenerator.next();
+                    layerGenerated.rtx = generateSSRC();
 
                     ss << "a=ssrc:" << layerGenerated.rtx << " cname:" << mConfig.cname << std::endl;
                     ss << "a=ssrc:" << layerGenerated.rtx << " msid:" << mConfig.cname << " " << msid << std::endl;
@@ -405,6 +405,32 @@ std::shared_ptr<RtcpPacketSource> SdpOffer::getControlPacketSource() const
     return mControlPacketSource;
 }
 
+bool SdpOffer::isUsedSSRC(uint32_t ssrc) const
+{
+    for (const auto& mediaItem : mMediaLineGeneratedList) {
+        if (mediaItem.ssrc == ssrc || mediaItem.rtx == ssrc) {
+            return true;
+        }
+        for (const auto& layerItem : mediaItem.layer) {
+            if (layerItem.ssrc == ssrc || layerItem.rtx == ssrc) {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
+
+uint32_t SdpOffer::generateSSRC()
+{
+    while (true) {
+        const auto ssrc = 1 + mRandomGenerator.next();
+        if (!isUsedSSRC(ssrc)) {
+            return ssrc;
+        }
+    }
+}
+
 std::string SdpOffer::generateRandomUUID()
 {
     static const char* const ALPHABET = "0123456789abcdef";
-- 
2.43.0


From cd94487a25fd1a20b1abc8914ce939bc20c2c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 65/70] fix: the highest sequence number in receiver reports
 doesn't go back when packets are reordered

---
 include/srtc/track_stats.h |  3 ++-
 src/track_stats.cpp        | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index d0bbcfc..c8e936f 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -49,7 +49,8 @@ private:
     size_t mReceivedPackets;
     size_t mReceivedBytes;
     size_t mReceivedPacketsLost;
-	ExtendedValue<uint16_t> mReceivedHighestSeq;
+	ExtendedValue<uint16_t> mReceivedSeq;
+	std::optional<uint64_t> mReceivedHighestSeqEx;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
 
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 6e704fc..8c98bf6 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -25,6 +25,7 @@ void TrackStats::clear()
     mReceivedPackets = 0;
     mReceivedBytes = 0;
     mReceivedPacketsLost = 0;
+    mReceivedHighestSeqEx = {};
 }
 
 size_t TrackStats::getSentFrames() const
@@ -79,16 +80,16 @@ size_t TrackStats::getReceivedPacketsLost() const
 
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
-    (void)mReceivedHighestSeq.extend(seq);
+    // Packets can arrive out of order
+    const auto value = mReceivedSeq.extend(seq);
+    if (!mReceivedHighestSeqEx.has_value() || value > mReceivedHighestSeqEx.value()) {
+        mReceivedHighestSeqEx = value;
+    }
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
-    const auto value = mReceivedHighestSeq.get();
-    if (value.has_value()) {
-        return value.value();
-    }
-    return 0;
+    return mReceivedHighestSeqEx.value_or(0);
 }
 
 void TrackStats::incrementReceivedFrames(size_t increment)
-- 
2.43.0


From 81a07ad87603ce33fed7632c59443e213163cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 66/70] fix: DLRR and sender reports with the same SSRC are
 protected under different SRTCP indices

---
 src/peer_candidate.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..899cada 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -193,6 +193,21 @@ bool is_rtcp_message(const srtc::ByteBuffer& buf)
     return false;
 }
 
+// There should be just one source per SSRC, otherwise the packets would be protected using the same SRTCP index
+std::shared_ptr<srtc::RtcpPacketSource> selectControlPacketSource(const std::shared_ptr<srtc::SdpOffer>& offer,
+                                                                  const std::shared_ptr<srtc::SdpAnswer>& answer)
+{
+    const auto source = offer->getControlPacketSource();
+    if (source) {
+        for (const auto& track : answer->getTrackList()) {
+            if (track->getDirection() == srtc::Direction::Publish && track->getSSRC() == source->getSSRC()) {
+                return track->getRtcpPacketSource();
+            }
+        }
+    }
+    return source;
+}
+
 float calculateLayerBandwidthScale(const std::vector<srtc::SimulcastLayer>& layerList,
                                    const std::shared_ptr<srtc::SimulcastLayer>& trackLayer)
 {
@@ -240,7 +255,7 @@ PeerCandidate::PeerCandidate(PeerCandidateListener* const listener,
     , mResponderTWCC(RtpResponderTWCC::factory(offer))
     , mSenderReportsHistory(std::make_shared<SenderReportsHistory>())
     , mReceiverReferenceTimeReportsHistory(std::make_shared<ReceiverReferenceTimeReportsHistory>())
-    , mControlPacketSource(offer->getControlPacketSource())
+    , mControlPacketSource(selectControlPacketSource(offer, answer))
     , mIceRttFilter(0.2f)
     , mControlRttFilter(0.2f)
     , mSentUseCandidate(false)
-- 
2.43.0


From 775ae2928b4821c5bbe45c5e0876b09645a66d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:02 +0000
Subject: [PATCH 67/70] fix: NACK and PLI for different tracks are protected
 under different SRTCP indices

---
 src/peer_candidate.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 899cada..6aaf94d 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -508,8 +508,10 @@ void PeerCandidate::sendPictureLossIndicator(const std::shared_ptr<Track>& track
 
         w.writeU32(ssrc);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kPayloadSpecific, std::move(payload));
-        sendRtcpPacket(track, packet);
+        const auto source = mControlPacketSource;
+        const auto packet =
+            std::make_shared<RtcpPacket>(source->getSSRC(), 1, RtcpPacket::kPayloadSpecific, std::move(payload));
+        sendRtcpPacket(source, packet);
     }
 }
 
@@ -551,8 +553,10 @@ void PeerCandidate::sendNacks(const std::shared_ptr<Track>& track, const std::ve
             seq,
             blp);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kFeedback, std::move(payload));
-        sendRtcpPacket(track, packet);
+        const auto source = mControlPacketSource;
+        const auto packet =
+            std::make_shared<RtcpPacket>(source->getSSRC(), 1, RtcpPacket::kFeedback, std::move(payload));
+        sendRtcpPacket(source, packet);
     }
 }
 
-- 
2.43.0


From 1aaae35df020408d126a14368a54a411de3037ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:10 +0000
Subject: [PATCH 68/70] fix: subscribing to just data channels doesn't crash

---
 src/peer_candidate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 6aaf94d..8276e44 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -361,7 +361,8 @@ void PeerCandidate::sendPublishReports()
         }
     }
 
-    if (mDirection == Direction::Publish && !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
+    if (mDirection == Direction::Publish && mControlPacketSource &&
+        !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
         // XR - DLRR if we have received RTRR's
         // https://datatracker.ietf.org/doc/html/rfc3611#section-4.5
 
@@ -406,6 +407,11 @@ void PeerCandidate::sendPublishReports()
 void PeerCandidate::sendSubscribeReports()
 {
     const auto source = mControlPacketSource;
+    if (!source) {
+        // Data channels only, there is no media
+        return;
+    }
+
     std::vector<std::shared_ptr<RtcpPacket>> packetList;
 
     if (mDirection == Direction::Subscribe) {
@@ -820,7 +826,7 @@ void PeerCandidate::run()
     }
 
     // TWCC
-    if (mResponderTWCC) {
+    if (mResponderTWCC && !mTrackList.empty()) {
         const auto track = mTrackList.front();
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
-- 
2.43.0


From 29294157529557db91adc0bb8dcc3eeab93729aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:31 +0000
Subject: [PATCH 69/70] fix: packets are not taken for retransmissions for
 tracks which don't have RTX

---
 src/peer_candidate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 8276e44..be9c9d7 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1476,7 +1476,7 @@ std::shared_ptr<Track> PeerCandidate::findReceiveTrack(ByteBuffer& packet) const
             return track;
         }
 
-        if (track->getRtxSSRC() == ssrc && track->getRtxPayloadId() == pt) {
+        if (track->getRtxPayloadId() > 0 && track->getRtxSSRC() == ssrc && track->getRtxPayloadId() == pt) {
             return track;
         }
     }
-- 
2.43.0


From 6651157777ed3a754b8fb7ae6976028165b24e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:40 +0000
Subject: [PATCH 70/70] fix: sequence numbers of retransmissions are not used
 in receiver reports

---
 src/peer_connection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..239852d 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -971,8 +971,11 @@ void PeerConnection::onCandidateReceivedMediaPacket([[maybe_unused]] PeerCandida
     if (mDirection == Direction::Subscribe) {
         const auto track = packet->getTrack();
 
-        const auto stats = track->getStats();
-        stats->setHighestReceivedSeq(packet->getSequence());
+        if (packet->getSSRC() == track->getSSRC()) {
+            // Not a retransmission, those have their own sequence numbers
+            const auto stats = track->getStats();
+            stats->setHighestReceivedSeq(packet->getSequence());
+        }
 
         for (const auto& trackEntry : mTrackEntryList) {
             if (trackEntry.track == track) {
-- 
2.43.0

